---------------------------- MODULE VttMuxTrace ----------------------------
(* Runs of the muxing tool with WebVTT files followed by the extracting tool.
   Events: load (a WebVTT file), frame (a frame of the input), mux (the outcome of the muxing
   tool and the blocks of its file), demux (outcome and extracted files). *)
EXTENDS VttMux, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, s, ok, err
vars == <<tid, k, s, ok, err>>
Init == tid \in 1..Len(Traces) /\ k = 0 /\ s = NewSession /\ ok = TRUE /\ err = ""
Tr == Traces[tid]
e == Tr.ev[k + 1]
\* Times are in milliseconds; when the tick of the file does not divide a millisecond, in tenths of
\* one, with u the tick: then a time may be off by a tick and one that was put together of two by two.
M == IF Tr.u = 0 THEN 1 ELSE 10
Near(x, y, ticks, more) == IF Tr.u = 0 THEN x = y ELSE x - y < ticks * Tr.u + more /\ y - x < ticks * Tr.u + more
Scaled(cs) == [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.a = @ * M, !.b = @ * M]]
SameCues(got, want) ==
  got.ok /\ Len(got.cs) = Len(want)
  /\ \A i \in 1..Len(want) :
       LET g == Scaled(got.cs)[i]
           w == want[i]
       IN g.id = w.id /\ g.set = w.set /\ g.pay = w.pay /\ Near(g.a, w.a, 1, M) /\ Near(g.b, w.b, 2, M)
Codec(kind) == CASE kind = "SUBTITLES" -> <<17, "D_WEBVTT/SUBTITLES">> [] kind = "CAPTIONS" -> <<17, "D_WEBVTT/CAPTIONS">>
                 [] kind = "DESCRIPTIONS" -> <<33, "D_WEBVTT/DESCRIPTIONS">> [] OTHER -> <<33, "D_WEBVTT/METADATA">>
OnLoad ==
  LET f == TLCEval(FileCues(e.doc))
      cs == TLCEval(Scaled(f.cs))
      good == f.ok /\ InTime(f.cs) /\ (e.kind = "CHAPTERS" => s.chap = <<>>)
  IN /\ ok' = (ok /\ good)
     /\ s' = IF ~good THEN s ELSE IF e.kind = "CHAPTERS" THEN LoadChapters(s, cs) ELSE TLCEval(Load(s, e.trk, cs))
     /\ err' = ""
OnFrame == s' = Frame(s, e.trk, e.t) /\ UNCHANGED ok /\ err' = ""
\* what the file holds for one track, as <<start, stop>> of cues or the time of frames
Spans(trk) == LET q == OfTrack(e.blocks, trk) IN [i \in 1..Len(q) |-> <<q[i].a, q[i].b>>]
Want(z, trk) == LET q == OfTrack(z.out, trk)
                IN [i \in 1..Len(q) |-> IF q[i].cue = <<>> THEN <<q[i].a, q[i].a>> ELSE <<q[i].a, q[i].cue.b>>]
SameSpans(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Near(x[i][1], y[i][1], 1, 0) /\ Near(x[i][2], y[i][2], 2, 0)
\* the frames of each track; frames of different tracks at the same time may change places
SameFrames(a, b) == LET T == {a[i][1] : i \in 1..Len(a)} \cup {b[i][1] : i \in 1..Len(b)}
                    IN \A t \in T : SelectSeq(a, LAMBDA x : x[1] = t) = SelectSeq(b, LAMBDA x : x[1] = t)
OnMux ==
  LET z == TLCEval(Flush(s)) IN
  /\ s' = z /\ UNCHANGED ok
  /\ err' = IF ok # (e.rc = 0) THEN IF ok THEN "files refused" ELSE "bad files accepted"
            ELSE IF ~ok THEN ""
            ELSE IF e.err # "" THEN e.err
            ELSE IF \E x \in ToSet(e.meta) : <<x.ty, x.codec>> # Codec(x.kind) THEN "type or codec of a metadata track"
            ELSE IF ~Sorted(e.blocks) THEN "blocks are not in time order"
            ELSE IF \E trk \in ToSet(e.tracks) : ~SameSpans(Spans(trk), Want(z, trk)) THEN "times in the file"
            ELSE IF ~SameFrames(e.av, e.inav) THEN "frames of the input" ELSE ""
Kinds == {"SUBTITLES", "CAPTIONS", "DESCRIPTIONS", "METADATA", "CHAPTERS"}
OnDemux ==
  LET some == s.chap # <<>> \/ e.want # <<>>
      Got(name) == LET F == {i \in 1..Len(e.files) : e.files[i].name = name} IN
                   IF F = {} THEN [ok |-> FALSE, cs |-> <<>>] ELSE FileCues(e.files[CHOOSE i \in F : TRUE].doc)
  IN /\ UNCHANGED <<s, ok>>
     /\ err' = IF ~ok THEN ""
               ELSE IF some # (e.rc = 0) THEN "outcome of the extraction"
               ELSE IF ~some THEN ""
               ELSE IF Len(e.files) # Len(e.want) + (IF s.chap = <<>> THEN 0 ELSE 1) THEN "number of files"
               ELSE IF s.chap # <<>> /\ ~SameCues(Got("CHAPTERS"), Chapter(s.chap)) THEN "chapters"
               ELSE IF \E w \in ToSet(e.want) : ~SameCues(Got(w.name), Extract(s, w.trk)) THEN "cues of a track"
               ELSE ""
\* the extraction again, with a file system that lets no file grow beyond `limit` bytes; `size`
\* is the size of the largest file
OnFull == UNCHANGED <<s, ok>> /\ err' = (IF (e.size <= e.limit) = (e.rc = 0) THEN "" ELSE "full file system: outcome")
Next == /\ err = "" /\ k < Len(Tr.ev) /\ k' = k + 1 /\ UNCHANGED tid
        /\ CASE e.o = "load" -> OnLoad [] e.o = "frame" -> OnFrame [] e.o = "mux" -> OnMux [] e.o = "full" -> OnFull [] OTHER -> OnDemux
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err]))
          ELSE IF k = Len(Tr.ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
