------------------------------ MODULE MuxTrace ------------------------------
(* Trace validation of muxing sessions.  A trace lists the calls made with their results
   and, at the end, the decoded output (kind "mux"); kind "fault" sessions had a writer
   operation fail; kind "chunk" compares a chunked session with its plain twin; kind
   "copy" adds the rewritten file with the cues in front. *)
EXTENDS Mux, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, s, err
vars == <<tid, k, s, err>>
Tr == Traces[tid]
Init == /\ tid \in 1..Len(Traces) /\ k = 0 /\ err = <<>>
        /\ s = NewSession(Tr.upt, Tr.tcw, Tr.seek = 1, Tr.maxd)

\* ------------------------------------------------------------------ output against model
O == Tr.out
If(c, m) == IF c THEN <<m>> ELSE <<>>
FlatOut == FoldLeft(LAMBDA a, c : a \o [i \in 1..Len(c.bl) |-> [b |-> c.bl[i], tc |-> c.tc + c.bl[i].rel]], <<>>, O.cl)
SameFrame(st, f, x) ==    \* f accepted, x = [b, tc] decoded
  /\ x.b.p = f.p /\ x.b.len = f.len
  /\ x.tc = Tick(st, f.t)
  /\ x.b.key = f.key
  /\ x.b.dp = f.dp
  /\ x.b.al = f.al /\ (f.al > 0 => x.b.aid = f.aid /\ x.b.ap = f.ap)
  /\ (f.ref >= 0 /\ ~f.key /\ ~Simple(f) => x.b.ref = Tick(st, f.ref))
  /\ (st.acc \/ x.b.dur = Tick(st, f.dur))
  /\ (st.acc /\ f.ds => x.b.dur = Tick(st, f.dur))
M01(st) ==
  LET fo == FlatOut IN
  If(\E n \in Nums(st) :
       LET want == SelectSeq(st.acd, LAMBDA f : f.trk = n)
           got == SelectSeq(fo, LAMBDA x : x.b.trk = n)
       IN \/ Len(want) # Len(got)
          \/ \E i \in 1..Len(want) : ~SameFrame(st, want[i], got[i]), "M01 frames of a track")
  \o If(Len(fo) # Len(st.acd), "M01 number of blocks")
Pl(c) == [i \in 1..Len(c.bl) |-> <<c.bl[i].trk, c.bl[i].p>>]
M02(st) ==
  If(\E i \in 1..Len(O.cl) : \E j \in 1..Len(O.cl[i].bl) : O.cl[i].bl[j].rel < 0, "M02 negative block offset")
  \o If(Len(O.cl) # Len(st.cl), "M02 number of clusters")
  \o If(\E i \in 1..Min2(Len(O.cl), Len(st.cl)) : O.cl[i].tc # st.cl[i].tc, "M02 cluster timecode")
  \o If(\E i \in 1..Min2(Len(O.cl), Len(st.cl)) :
          LET a == Pl(O.cl[i])  b == Pl(st.cl[i]) IN ToSet(a) # ToSet(b), "M02 cluster content")
ExpectCues(st) ==
  [i \in 1..Len(st.cue) |->
     LET c == st.cue[i] IN
     [time |-> c.time, trk |-> c.trk,
      pos |-> IF c.ci <= Len(O.cl) THEN O.cl[c.ci].off - O.pay ELSE -1,
      bn |-> LET b == CueBlock(st, c) IN IF st.cbn THEN Max2(b, 1) ELSE 1]]
M03(st) ==
  IF st.live \/ ~st.cues THEN If(O.ncues # 0, "M03 unexpected cues")
  ELSE If(O.ncues # 1, "M03 cues missing")
       \o If(O.ncues = 1 /\ O.cues # ExpectCues(st), "M03 cue points")
M04(st) ==
  LET known == st.seek /\ ~st.live
      ids == {"info", "tracks"} \cup (IF st.chap > 0 THEN {"chapters"} ELSE {})
             \cup (IF st.tag > 0 THEN {"tags"} ELSE {})
             \cup (IF O.cl # <<>> THEN {"cluster"} ELSE {})
             \cup (IF st.cues /\ ~st.live THEN {"cues"} ELSE {})
      tops == [i \in 1..Len(O.top) |-> O.top[i].id]
  IN If(O.err # "", "M04 not well formed: " \o O.err)
     \o If(known /\ O.segsz # 1, "M04 segment size")
     \o If(~known /\ O.segsz # -1, "M04 segment size should be unknown")
     \o If(known /\ \E i \in 1..Len(O.cl) : O.cl[i].size < 0, "M04 cluster size unknown")
     \o If(~st.seek /\ \E i \in 1..Len(O.cl) : O.cl[i].size # -1, "M04 cluster size should be unknown")
     \o If(Tr.moved # 0, "M04 non-seekable writer repositioned")
     \o If(ids \ ToSet(tops) # {}, "M04 element missing")
     \o If(known /\ {O.seek[i].id : i \in 1..Len(O.seek)} # ids, "M04 seek entries")
     \o If(known /\ Len(O.seek) # Cardinality(ids), "M04 seek entry count")
     \o If(\E i \in 1..Len(O.seek) :
             LET m == {j \in 1..Len(O.top) : O.top[j].id = O.seek[i].id}
             IN m = {} \/ O.top[MinOf(m)].off - O.pay # O.seek[i].pos, "M04 seek position")
     \o If(~known /\ O.seek # <<>>, "M04 unexpected seek head")
M05(st) ==
  LET d == Duration(st) IN
  If(O.dt # Tr.dt, "M05 document type")
  \o If(O.dv # 4 \/ O.drv # 2, "M05 document version")
  \o If(O.scale # Tr.scale \/ O.mapp # Tr.mapp \/ O.wapp # Tr.wapp \/ O.date # Tr.date, "M05 info fields")
  \o If((~st.seek \/ st.live) /\ O.dur # <<>>, "M05 unexpected duration")
  \o If(st.seek /\ ~st.live /\ O.dur = <<>>, "M05 duration missing")
  \o If(st.seek /\ ~st.live /\ O.dur # <<>>
        /\ ~(O.dur[1] * d[2] <= Tr.dsc * d[1] /\ Tr.dsc * d[1] <= O.dur[2] * d[2]), "M05 duration")
M09(st) ==
  IF \A i \in 1..Len(st.cl) : ~st.cl[i].acc THEN <<>>
  ELSE If(\E i \in 1..Min2(Len(O.cl), Len(st.cl)) : st.cl[i].acc /\
            \/ Pl(O.cl[i]) # Pl(st.cl[i])
            \/ \E j \in 1..Len(O.cl[i].bl) : O.cl[i].bl[j].dur # Tick(st, st.cl[i].bl[j].dur),
          "M09 held back frames")
       \o If(Len(O.cl) # Len(st.cl), "M09 clusters")
Order(st) ==   \* exact block order also without held back frames
  If(\E i \in 1..Min2(Len(O.cl), Len(st.cl)) : ~st.cl[i].acc /\ Pl(O.cl[i]) # Pl(st.cl[i]), "M01 M02 block order")
Verdict(st) == M01(st) \o M02(st) \o M03(st) \o M04(st) \o M05(st) \o M09(st) \o Order(st)

AllTags == "M01 M02 M03 M04 M05 M08 M09 M11"
\* chunked twin: header, chunks and cues concatenate to the plain stream
Chunk(st) ==
  LET C == Tr.chunk IN
  If(C.same # 1, "M11 concatenation differs")
  \o If(C.n # Len(O.cl), "M11 number of chunks")
  \o If(\E i \in 1..Min2(C.n, Len(O.cl)) : C.off[i] # O.cl[i].off, "M11 chunk does not start at its cluster")
  \o If(C.rets # 1, "M11 results differ")
  \o If(C.badfile # 0, "M11 missing or extra file")
\* the rewritten file
Copy(st) ==
  LET P == Tr.copy
      shift == P.cluoff - O.cl[1].off
  IN IF P.r # 1 THEN <<>>     \* judged as a call
     ELSE If(P.err # "", "M08 not well formed: " \o P.err)
       \o If(P.same # 1, "M08 elements changed")
       \o If(P.segsz # 1, "M08 segment size")
       \o If(P.tops # Tr.wanttops, "M08 element order")
       \o If(P.cues # [i \in 1..Len(O.cues) |-> [O.cues[i] EXCEPT !.pos = @ + shift]], "M08 cue points")
       \o If(\E i \in 1..Len(P.seek) :
               LET m == {j \in 1..Len(P.top) : P.top[j].id = P.seek[i].id}
               IN m = {} \/ P.top[MinOf(m)].off - O.pay # P.seek[i].pos, "M08 seek position")
       \o If({P.seek[i].id : i \in 1..Len(P.seek)} # {O.seek[i].id : i \in 1..Len(O.seek)}
             \/ Len(P.seek) # Len(O.seek), "M08 seek entries")

\* ------------------------------------------------------------------ transitions
Call ==
  /\ k < Len(Tr.calls) /\ err = <<>>
  /\ LET c == Tr.calls[k + 1]
         r == Step(s, c)
         st == c.op \in {"VT", "AT", "GT"}
     IN IF Tr.kind = "fault" /\ c.x = 1
        THEN UNCHANGED <<s, err>>     \* a writer operation has failed: judged at the end
        ELSE /\ s' = r[1]
             /\ err' = IF c.r = r[2] THEN <<>>
                       ELSE IF r[2] = 0 THEN <<"M10 invalid call accepted: " \o c.op>>
                       ELSE IF st THEN <<"M06 M10 track number: " \o c.op>>
                       ELSE <<AllTags \o " M10 valid call failed: " \o c.op>>
  /\ k' = k + 1 /\ UNCHANGED tid
Judge ==
  /\ k = Len(Tr.calls) /\ err = <<>>
  /\ k' = k + 1 /\ UNCHANGED <<tid, s>>
  /\ err' = IF Tr.kind = "fault"
            THEN If(\E i \in 1..Len(Tr.calls) : Tr.calls[i].x = 1
                    /\ ~\E j \in 1..Len(Tr.calls) : Tr.calls[j].x = 1 /\ Tr.calls[j].r = 0,
                    "M07 writer failure swallowed")
            ELSE IF ~s.fin THEN <<>>
            ELSE Verdict(s) \o (IF Tr.kind = "chunk" THEN Chunk(s) ELSE <<>>)
                            \o (IF Tr.kind = "copy" THEN Copy(s) ELSE <<>>)
Next == Call \/ Judge
Spec == Init /\ [][Next]_vars
Accept == err = <<>> \/ PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err]))
\* model invariants, checked along every recorded session as well
Model == Conserved(s) /\ InOrder(s) /\ Representable(s) /\ CuesLead(s) /\ DurationsClosed(s)
=============================================================================
