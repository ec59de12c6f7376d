-------------------------------- MODULE Mux --------------------------------
(* The muxing session (mkvmuxer::Segment and mkvmuxer::Cluster) as a state machine.

   One public API call is one transition: Step(s, call) yields the next session state and
   the call's result.  Times are integers in units of 1/upt of a timecode tick, relative to
   a base the binding chooses; sizes are bytes.  Frames carry the digest of their payload.

   Session state:
     trk   tracks in the order added: [n, ty] (ty 1 video, 2 audio, other)
     cl    clusters: [tc, bl (blocks written), ps (payload bytes), hw, acc, st (frames held
           back per track index), lbt (last block time per track index)]
     q     audio frames held back until the next frame that is written directly
     lts, ltt, ldur, nw    last time written, per track, last duration, frames per track
     le    the frame added to a cluster last
     cue   cue points: [time, trk, ci (cluster), fid (frame), u (placed by the user)]
     acd   every accepted frame, in order                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

MaxRel == 32767
Cod(v) == IF v < 127 THEN 1 ELSE IF v < 16383 THEN 2 ELSE IF v < 2097151 THEN 3
          ELSE IF v < 268435455 THEN 4 ELSE 5
UIn(v) == IF v < 256 THEN 1 ELSE IF v < 65536 THEN 2 ELSE IF v < 16777216 THEN 3 ELSE 4
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

NewSession(upt, tcw, seek, maxd) ==
  [upt |-> upt, tcw |-> tcw, seek |-> seek, live |-> FALSE, cues |-> TRUE, maxd |-> maxd, maxs |-> 0,
   acc |-> FALSE, fixt |-> FALSE, est |-> FALSE, udur |-> -1, trk |-> <<>>, hv |-> FALSE, hdr |-> FALSE,
   cl |-> <<>>, q |-> <<>>, lts |-> 0, ltt |-> <<>>, ldur |-> 0, nw |-> <<>>, cue |-> <<>>, nc |-> FALSE,
   force |-> FALSE, ct |-> 0, chap |-> 0, tag |-> 0, n |-> 0, acd |-> <<>>, fin |-> FALSE, bad |-> FALSE,
   cbn |-> TRUE, le |-> 0]

Tick(s, t) == t \div s.upt
Nums(s) == {s.trk[i].n : i \in 1..Len(s.trk)}
Ix(s, n) == CHOOSE i \in 1..Len(s.trk) : s.trk[i].n = n
Ty(s, n) == s.trk[Ix(s, n)].ty

(* ---------------------------------------------------------------- blocks *)
Simple(f) == f.al = 0 /\ f.dp = "0" /\ f.dur = 0
BlockSize(s, f) ==
  LET raw == 4 + f.len IN
  IF Simple(f) THEN 1 + Cod(raw) + raw
  ELSE LET more == 2 + UIn(f.aid) + 1 + Cod(f.al) + f.al
           bm == 1 + Cod(more) + more
           adds == IF f.al = 0 THEN 0 ELSE 2 + Cod(bm) + bm
           dp == IF f.dp = "0" THEN 0 ELSE 3 + f.dpw
           ref == IF f.key THEN 0 ELSE 2 + UIn(Tick(s, Max2(f.ref, 0)))
           d == Tick(s, f.dur)
           dur == IF d > 0 THEN 2 + UIn(d) ELSE 0
           tot == 1 + Cod(raw) + raw + adds + dp + ref + dur
       IN 1 + Cod(tot) + tot
Fits(s, c, f) == Tick(s, f.t) >= c.tc /\ Tick(s, f.t) - c.tc <= MaxRel
\* one block appended to a cluster; the cluster header is written with the first block
PutBlock(s, c, f) ==
  [c EXCEPT !.bl = Append(@, f),
            !.ps = @ + (IF c.hw THEN 0 ELSE 2 + (IF c.fx THEN 8 ELSE IF s.tcw > 0 THEN s.tcw ELSE UIn(c.tc)))
                     + BlockSize(s, f),
            !.hw = TRUE,
            !.lbt = [@ EXCEPT ![Ix(s, f.trk)] = f.t]]

(* accurate cluster durations: the newest frame of each track is held back; an older one is
   written unless another track holds an earlier frame *)
RECURSIVE Drain(_, _, _)
Drain(s, c, i) ==
  IF Len(c.st[i]) < 2 THEN c
  ELSE LET f == Head(c.st[i]) IN
       IF \E j \in DOMAIN c.st : j # i /\ c.st[j] # <<>> /\ Head(c.st[j]).t < f.t THEN c
       ELSE Drain(s, PutBlock(s, [c EXCEPT !.st[i] = Tail(@)], f), i)
AddToCluster(s, c, f) ==
  IF ~c.acc THEN PutBlock(s, c, f)
  ELSE LET i == Ix(s, f.trk) IN Drain(s, [c EXCEPT !.st[i] = Append(@, f)], i)

(* closing a cluster: held back frames in time order, ties by track number; the last frame of
   a track gets a duration up to the next cluster unless it has one *)
RECURSIVE Flush(_, _, _, _)
Flush(s, c, set, t) ==
  LET live == {j \in DOMAIN c.st : c.st[j] # <<>>} IN
  IF live = {} THEN c
  ELSE LET best == CHOOSE i \in live : \A j \in live :
                      \/ Head(c.st[i]).t < Head(c.st[j]).t
                      \/ Head(c.st[i]).t = Head(c.st[j]).t /\ s.trk[i].n <= s.trk[j].n
           f == Head(c.st[best])
           g == IF set /\ Len(c.st[best]) = 1 /\ ~f.ds /\ t > f.t
                THEN [f EXCEPT !.dur = t - f.t, !.adur = TRUE,
                               !.ref = IF f.key \/ f.ref >= 0 THEN @ ELSE c.lbt[best]]
                ELSE f
       IN Flush(s, PutBlock(s, [c EXCEPT !.st[best] = Tail(@)], g), set, t)
CloseLast(s, set, t) ==
  IF s.cl = <<>> THEN s
  ELSE [s EXCEPT !.cl[Len(s.cl)] = IF @.acc THEN Flush(s, @, set, t) ELSE @]

(* ---------------------------------------------------------------- writing frames *)
AddCue(s, time, trk, u) ==
  [s EXCEPT !.cue = Append(@, [time |-> time, trk |-> trk, ci |-> Len(s.cl), fid |-> s.le, u |-> u]),
            !.nc = FALSE]
\* a frame goes into the last cluster, with the automatic cue point if it is due
Emit(s, f) ==
  LET c == s.cl[Len(s.cl)]
      s1 == [s EXCEPT !.cl[Len(s.cl)] = AddToCluster(s, c, f), !.bad = @ \/ ~Fits(s, c, f), !.le = f.id]
  IN IF s1.nc /\ s1.ct = f.trk THEN AddCue(s1, Tick(s, f.t), f.trk, FALSE) ELSE s1
EmitQueued(s, f) ==
  LET s1 == Emit(s, f) IN
  IF f.t > s1.lts THEN [s1 EXCEPT !.lts = f.t, !.ltt[Ix(s, f.trk)] = f.t, !.ldur = f.dur] ELSE s1
WriteAll(s) == [FoldLeft(EmitQueued, s, s.q) EXCEPT !.q = <<>>]
\* held back audio that ends before t stays with the old cluster
WriteLess(s, t) ==
  IF s.cl = <<>> \/ Len(s.q) < 2 THEN s
  ELSE LET late == {i \in 2..Len(s.q) : s.q[i].t > t}
           m == (IF late = {} THEN Len(s.q) + 1 ELSE MinOf(late)) - 2   \* frames 1..m go now
       IN [FoldLeft(EmitQueued, s, SubSeq(s.q, 1, m)) EXCEPT !.q = SubSeq(s.q, m + 1, Len(s.q))]
NewCluster(s, t) ==
  LET s1 == CloseLast(WriteLess(s, t), TRUE, t)
      tc == MinOf({Tick(s, t)} \cup {Tick(s, s1.q[i].t) : i \in 1..Len(s1.q)})
      z == [i \in 1..Len(s.trk) |-> <<>>]
  IN [s1 EXCEPT !.nc = @ \/ s.cues,
                !.cl = Append(@, [tc |-> tc, bl |-> <<>>, ps |-> 0, hw |-> FALSE, acc |-> s.acc, fx |-> s.fixt,
                                  st |-> z, lbt |-> [i \in 1..Len(s.trk) |-> 0]])]
\* must a new cluster start with frame f?
Cut(s, f) ==
  \/ s.cl = <<>> \/ s.force
  \/ LET c == s.cl[Len(s.cl)]  d == Tick(s, f.t) - c.tc IN
     \/ d > MaxRel
     \/ f.key /\ Ty(s, f.trk) = 1
     \/ s.maxd > 0 /\ d >= s.maxd
     \/ s.maxs > 0 /\ c.ps >= s.maxs
RECURSIVE Place(_, _)
Place(s, f) ==
  IF ~Cut(s, f) THEN WriteAll(s)
  ELSE LET s1 == WriteAll(NewCluster([s EXCEPT !.force = FALSE], f.t)) IN
       IF Fits(s1, s1.cl[Len(s1.cl)], f) THEN s1
       ELSE WriteAll(NewCluster(s1, f.t))   \* audio held back started the cluster too early
EmitDirect(s, f) ==
  LET f1 == IF ~Simple(f) /\ ~f.key /\ f.ref < 0 THEN [f EXCEPT !.ref = s.ltt[Ix(s, f.trk)]] ELSE f
      s1 == Emit(s, f1)
      i == Ix(s, f.trk)
  IN [s1 EXCEPT !.lts = f.t, !.ltt[i] = f.t, !.ldur = f.dur, !.nw[i] = @ + 1]

Header(s) ==   \* written with the first frame
  IF s.hdr THEN s
  ELSE LET vids == {i \in 1..Len(s.trk) : s.trk[i].ty = 1} IN
       [s EXCEPT !.hdr = TRUE,
                 !.ct = IF ~s.cues \/ s.ct # 0 THEN @
                        ELSE IF vids # {} THEN s.trk[MinOf(vids)].n ELSE s.trk[1].n]

QTicks(s) == {Tick(s, s.q[i].t) : i \in 1..Len(s.q)}
Refused(s, f) ==
  \/ f.bad \/ f.len = 0
  \/ f.t < s.lts
  \/ f.trk \notin Nums(s)
  \/ s.cl = <<>> /\ s.q # <<>> /\ MaxOf(QTicks(s)) - Tick(s, f.t) > MaxRel
FrameStep(s, f0) ==
  IF Refused(s, f0) THEN <<s, 0>>
  ELSE LET f == [f0 EXCEPT !.id = s.n + 1]
           s0 == [Header(s) EXCEPT !.n = @ + 1, !.acd = Append(@, f)]
           far == IF s0.cl # <<>> THEN Tick(s, f.t) - s0.cl[Len(s0.cl)].tc > MaxRel
                  ELSE s0.q # <<>> /\ Tick(s, f.t) - MinOf(QTicks(s0)) > MaxRel
           s1 == [s0 EXCEPT !.force = @ \/ far]
           i == Ix(s, f.trk)
       IN IF s1.hv /\ Ty(s, f.trk) = 2 /\ ~s1.force
          THEN LET f1 == IF ~Simple(f) /\ ~f.key /\ f.ref < 0 THEN [f EXCEPT !.ref = s.ltt[i]] ELSE f
               IN <<[s1 EXCEPT !.q = Append(@, f1), !.nw[i] = @ + 1], 1>>
          ELSE <<EmitDirect(Place(s1, f), f), 1>>

(* ---------------------------------------------------------------- tracks and settings *)
AutoNumber(s) ==   \* smallest free number not below count + 1
  MinOf({n \in (Len(s.trk) + 1)..(2 * Len(s.trk) + 1) : n \notin Nums(s)})
TrackStep(s, num, ty, video) ==
  LET n == IF num = 0 THEN AutoNumber(s) ELSE num IN
  IF s.hdr \/ num < 0 \/ num > 126 \/ num \in Nums(s) THEN <<s, 0>>
  ELSE <<[s EXCEPT !.trk = Append(@, [n |-> n, ty |-> ty]), !.hv = @ \/ video,
                   !.ltt = Append(@, 0), !.nw = Append(@, 0)], n>>

\* the session's declared duration as a fraction of units: <<numerator, denominator>>
Greater(a, b) == a[1] * b[2] > b[1] * a[2]
Duration(s) ==
  IF s.udur > 0 THEN <<s.udur, 1>>
  ELSE LET d0 == <<s.lts + s.ldur, 1>>
           est == [i \in 1..Len(s.trk) |-> IF s.nw[i] < 2 THEN <<0, 1>>
                                           ELSE <<s.ltt[i] * s.nw[i], s.nw[i] - 1>>]
           d == IF s.est /\ s.ldur = 0
                THEN FoldLeft(LAMBDA a, b : IF Greater(b, a) THEN b ELSE a, d0, est) ELSE d0
       IN IF d[1] = 0 THEN <<s.upt, 1>> ELSE d    \* never zero: one tick

FinStep(s) ==
  IF s.fin THEN <<s, 0>>
  ELSE IF s.cl = <<>>          \* nothing was started, or only held back audio
       THEN <<s, IF s.live /\ s.q = <<>> THEN 1 ELSE 0>>
  ELSE LET s1 == WriteAll(s)
           s2 == IF s1.live /\ ~s1.acc THEN s1 ELSE CloseLast(s1, FALSE, 0)
       IN <<[s2 EXCEPT !.fin = TRUE], 1>>

Step(s, c) ==
  CASE c.op = "F" -> FrameStep(s, c.f)
    [] c.op = "FC" -> <<[s EXCEPT !.force = TRUE], 1>>
    [] c.op = "CP" -> IF s.cl = <<>> THEN <<s, 0>>
                      ELSE <<AddCue(s, Tick(s, c.t), c.trk, TRUE), 1>>
    [] c.op = "FIN" -> FinStep(s)
    [] c.op = "COPY" -> <<s, IF s.fin /\ ~s.live /\ s.cues /\ s.seek /\ c.v = 1 THEN 1 ELSE 0>>
    [] c.op = "VT" -> TrackStep(s, c.n, 1, TRUE)
    [] c.op = "AT" -> TrackStep(s, c.n, 2, FALSE)
    [] c.op = "GT" -> TrackStep(s, c.n, c.ty, FALSE)
    [] c.op = "CT" -> IF c.n \in Nums(s) THEN <<[s EXCEPT !.ct = c.n], 1>> ELSE <<s, 0>>
    [] c.op = "MODE" -> <<[s EXCEPT !.live = (c.v = 1)], 1>>
    [] c.op = "CUES" -> <<[s EXCEPT !.cues = (c.v = 1)], 1>>
    [] c.op = "MAXDUR" -> <<[s EXCEPT !.maxd = c.v], 1>>
    [] c.op = "MAXSIZE" -> <<[s EXCEPT !.maxs = c.v], 1>>
    [] c.op = "ACC" -> <<[s EXCEPT !.acc = (c.v = 1)], 1>>
    [] c.op = "FIX" -> <<[s EXCEPT !.fixt = (c.v = 1)], 1>>
    [] c.op = "EST" -> <<[s EXCEPT !.est = (c.v = 1)], 1>>
    [] c.op = "DUR" -> <<[s EXCEPT !.udur = c.v], 1>>
    [] c.op = "CBN" -> <<[s EXCEPT !.cbn = (c.v = 1)], 1>>
    [] c.op = "CHAP" -> <<[s EXCEPT !.chap = @ + 1], 1>>
    [] c.op = "TAG" -> <<[s EXCEPT !.tag = @ + 1], 1>>
    [] OTHER -> <<s, 1>>

(* ---------------------------------------------------------------- properties of the state *)
AllBlocks(s) == FoldLeft(LAMBDA a, c : a \o c.bl, <<>>, s.cl)
Held(s) == IF s.cl = <<>> THEN <<>>
           ELSE FoldLeft(LAMBDA a, x : a \o x, <<>>, s.cl[Len(s.cl)].st)
Ids(fs) == {fs[i].id : i \in 1..Len(fs)}
\* M01: nothing accepted is lost or duplicated: it is written, held in the last cluster, or queued
Conserved(s) ==
  LET w == AllBlocks(s)  h == Held(s) IN
  /\ Ids(w) \cup Ids(h) \cup Ids(s.q) = Ids(s.acd)
  /\ Len(w) + Len(h) + Len(s.q) = Len(s.acd)
\* M01: per track, blocks are in the order the frames were added
InOrder(s) ==
  LET w == AllBlocks(s) IN
  \A n \in Nums(s) : LET v == SelectSeq(w, LAMBDA b : b.trk = n) IN
    \A i \in 1..(Len(v) - 1) : v[i].id < v[i + 1].id
\* M02: offsets are representable and a cluster that is not the last has blocks
Representable(s) ==
  /\ ~s.bad
  /\ \A i \in 1..Len(s.cl) : \A j \in 1..Len(s.cl[i].bl) : Fits(s, s.cl[i], s.cl[i].bl[j])
  /\ \A i \in 1..(Len(s.cl) - 1) : s.cl[i].bl # <<>>
\* M02: with a video track every video key frame is the first video block of its cluster
KeyFrameCuts(s) ==
  \A i \in 1..Len(s.cl) : \A j, k \in 1..Len(s.cl[i].bl) :
     j < k /\ Ty(s, s.cl[i].bl[j].trk) = 1 => ~(s.cl[i].bl[k].key /\ Ty(s, s.cl[i].bl[k].trk) = 1)
\* M03: an automatic cue names a block of its cluster, the first one of the cue track
CueBlock(s, c) == LET b == s.cl[c.ci].bl IN
  IF c.fid \in Ids(b) THEN CHOOSE j \in 1..Len(b) : b[j].id = c.fid ELSE 0
CuesLead(s) ==
  \A i \in 1..Len(s.cue) : ~s.cue[i].u /\ s.fin =>
    LET c == s.cue[i]  b == s.cl[c.ci].bl  n == CueBlock(s, c) IN
    /\ n > 0 /\ b[n].trk = c.trk /\ Tick(s, b[n].t) = c.time
\* M09: no held back frame is left and durations never reach past the next cluster's frame
DurationsClosed(s) ==
  \A i \in 1..(Len(s.cl) - 1) : \A j \in DOMAIN s.cl[i].st : s.cl[i].st[j] = <<>>
=============================================================================
