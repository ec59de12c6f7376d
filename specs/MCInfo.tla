------------------------------ MODULE MCInfo ------------------------------
(* Every sequence of up to MaxA options on a small document: each section is printed exactly when
   its option is on, with the same lines whatever the other sections do, and every wanted block
   is told once, in order. *)
EXTENDS Info
CONSTANTS MaxA
VARIABLES args
Blank == [x \in {"TrackType", "TrackNumber", "Name", "CodecID", "CodecName", "PrivateData(size)", "DefaultDuration", "PixelWidth", "PixelHeight",
                 "FrameRate", "DisplayWidth", "DisplayHeight", "DisplayUnit", "Channels", "BitDepth", "SamplingFrequency", "CodecDelay",
                 "SeekPreRoll"} \cup {Vp9Facts[i] : i \in 1..4} |-> ""]
Trk(n, ty, codec, at) == [n |-> n, ty |-> ty, codec |-> codec, f |-> [Blank EXCEPT !["TrackType"] = S(ty), !["TrackNumber"] = S(n)], privbad |-> FALSE,
                          enc |-> ty = 2, encoded |-> FALSE, colour |-> FALSE, master |-> FALSE, proj |-> FALSE, at |-> at, sz |-> 20]
Bl(n, t, g, fr) == [trk |-> n, t |-> t, group |-> g, key |-> ~g, pad |-> IF g THEN "5" ELSE "", at |-> 200 + t, sz |-> 9, fr |-> fr, iv |-> "0"]
Doc == [u |-> 1000, hdr |-> <<"1", "1", "4", "8", "webm", "4", "2">>, seg |-> [at |-> 40, sz |-> 900],
        seek |-> <<[at |-> 52, sz |-> 20, es |-> <<[at |-> 57, sz |-> 10, id |-> "1549a966", pos |-> 30]>>, vs |-> <<>>]>>,
        info |-> [at |-> 80, sz |-> 40, dur |-> 70000, title |-> "t", mux |-> "", wr |-> "w"], tracks |-> [at |-> 120, sz |-> 50],
        trk |-> <<Trk(3, 1, "V_VP8", 125), Trk(7, 2, "A_OPUS", 145)>>,
        cl |-> <<[at |-> 300, sz |-> 60, t |-> 0, bs |-> <<Bl(3, 0, FALSE, <<<<16, 2, 0, 157, 1, 42>>>>), Bl(7, 10, TRUE, <<<<1, 1, 2, 3, 4, 5, 6, 7, 8>>>>)>>],
                 [at |-> 360, sz |-> 70, t |-> 40, bs |-> <<Bl(3, 40, TRUE, <<<<17, 2, 0>>, <<1>>>>), Bl(3, 50, FALSE, <<<<17, 3>>>>)>>]>>,
        cues |-> <<[at |-> 450, sz |-> 30, ps |-> <<[t |-> 0, tp |-> <<[trk |-> 3, pos |-> 260, bn |-> 1]>>]>>]>>]
Args == [k : Names, on : BOOLEAN] \cup {[k |-> "all", on |-> TRUE]}
Init == args = <<>>
Next == Len(args) < MaxA /\ \E a \in Args : args' = Append(args, a)
Spec == Init /\ [][Next]_args
o == Opts(args)
\* the lines of each item
Report(p) == LET it == Items(Doc) IN
  FoldLeft(LAMBDA a, x : LET r == Emit(a.z, Doc, x, p) IN [z |-> r.z, ls |-> Append(a.ls, r.ls)], [z |-> NewVp9, ls |-> <<>>], it).ls
Sections == [hdr |-> "ebml_header", seg |-> "segment", seek |-> "seekhead", info |-> "segment_info", tracks |-> "tracks", track |-> "tracks",
             count |-> "clusters", size |-> "clusters_size", cues |-> "cues"]
Plain(ls) == [i \in 1..Len(ls) |-> ls[i].x]
SectionsKept ==
  LET it == Items(Doc) r == TLCEval(Report(o)) IN
  \A i \in 1..Len(it) :
    it[i].o \in DOMAIN Sections =>
      LET n == Sections[it[i].o] IN
      /\ n \notin o => r[i] = <<>>
      /\ n \in o => Plain(r[i]) = Plain(Report((o \cap {"size", "offset", "times_seconds", "blocks"}) \cup {n})[i])
IsBlock(x) == Len(x) >= 11 /\ SubSeq(x, 1, 11) = "Block:type:"
BlocksTold ==
  LET ls == Plain(Flat(Report(o)))
      n == Len(SelectSeq(ls, IsBlock))
  IN  n = IF "blocks" \notin o THEN 0 ELSE (IF "video" \in o THEN 3 ELSE 0) + (IF "audio" \in o THEN 1 ELSE 0)
LastCounts == \A i \in 1..Len(args) :
  (args[i].k \in Names /\ \A j \in (i + 1)..Len(args) : args[j].k \notin {args[i].k, "all"}) => (args[i].k \in o <=> args[i].on)
AllMeansAll == (args # <<>> /\ args[Len(args)].k = "all") => o = Names
=============================================================================
