----------------------------- MODULE RemuxTrace -----------------------------
(* Runs of the remuxing tool: events track and block describe the input, out its outcome and
   the file it wrote. *)
EXTENDS Remux, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, s, err
vars == <<tid, k, s, err>>
Tr == Traces[tid]
o == Tr.opt
e == Tr.ev[k + 1]
Init == tid \in 1..Len(Traces) /\ k = 0 /\ s = NewRun /\ err = ""
Matches(want, got) == DOMAIN want \subseteq DOMAIN got /\ \A x \in DOMAIN want : want[x] = "any" \/ want[x] = got[x]
TracksOk(z) == /\ Len(e.trk) = Len(z.trk)
               /\ \A i \in 1..Len(z.trk) : e.trk[i].n = z.trk[i].n /\ e.trk[i].ty = z.trk[i].ty
Bad(z) == {i \in 1..Len(z.trk) : ~Matches(z.trk[i].f, e.trk[i].f)}
FirstBad(z) == CHOOSE x \in DOMAIN z.trk[MinOf(Bad(z))].f :
                 LET i == MinOf(Bad(z)) IN z.trk[i].f[x] # "any" /\ z.trk[i].f[x] # e.trk[i].f[x]
Sorted(q) == \A i \in 1..Len(q)-1 : q[i].t <= q[i + 1].t
Plain(q) == [i \in 1..Len(q) |-> [trk |-> q[i].trk, t |-> q[i].t, key |-> q[i].key, dp |-> q[i].dp, fr |-> q[i].fr]]
\* c.at: the places in its cluster of the blocks with the track and time of the cue point; the
\* first block needs no number
BlockNumberOk(c) == IF o.cuebn THEN (IF c.bn = 0 THEN 1 ELSE c.bn) \in ToSet(c.at) ELSE c.bn = 0 /\ c.at # <<>>
CuesErr(z) ==
  LET c == CueTrack(z, o) IN
  IF ~WithCues(o) THEN IF e.cues # <<>> \/ e.ncues # 0 THEN "cue points although they are off" ELSE ""
  ELSE IF CueFrames(z, o) # <<>> /\ e.ncues # 1 THEN "no cue points"
  ELSE IF c # 0 /\ \E i \in 1..Len(e.cues) : e.cues[i].trk # c THEN "track of a cue point"
  ELSE IF \E i \in 1..Len(e.cues) : ~BlockNumberOk(e.cues[i]) THEN "block number of a cue point"
  ELSE IF e.ncues = 1 /\ e.first # o.cb4 THEN "place of the cue points" ELSE ""
OutErr(z) ==
  IF e.err # "" THEN e.err
  ELSE IF e.scale # Tr.scale THEN "timecode scale"
  ELSE IF ~TracksOk(z) THEN "tracks"
  ELSE IF Bad(z) # {} THEN "track metadata: " \o FirstBad(z)
  ELSE IF Len(e.blocks) # Len(z.out) THEN "number of frames"
  ELSE IF \E i \in 1..Len(z.trk) : Plain(OfTrack(e.blocks, z.trk[i].n)) # OfTrack(z.out, z.trk[i].n) THEN "frames of a track"
  ELSE IF ~Sorted(e.blocks) THEN "frames are not in time order"
  ELSE IF CuesErr(z) # "" THEN CuesErr(z)
  ELSE IF ClustersErr(z, Tr.big, e.cl) # "" THEN ClustersErr(z, Tr.big, e.cl)
  ELSE IF e.tags # (IF o.tags THEN Tr.tags ELSE <<>>) THEN "tags"
  ELSE IF o.dur /\ ~o.live /\ e.dur # Tr.dur THEN "duration" ELSE ""
MustFail(z) == z.fail \/ o.bad \/ (o.cb4 /\ ~CanMove(z, o))
\* the library holds audio frames back until the first frame of the video track
NoVideo(z) == \E i \in 1..Len(z.trk) : z.trk[i].ty = VideoTy /\ OfTrack(z.out, z.trk[i].n) = <<>>
OnOut == /\ UNCHANGED s
         /\ err' = IF s.out = <<>> /\ e.rc = 0 /\ ~o.bad THEN ""
                   ELSE IF e.rc = 0 THEN IF s.fail \/ o.bad THEN "refused options or input accepted" ELSE OutErr(s)
                   ELSE IF MustFail(s) \/ s.out = <<>> \/ NoVideo(s) THEN "" ELSE "input refused"
OnFull == UNCHANGED s /\ err' = (IF e.rc = 0 /\ e.size > e.limit THEN "full file system: success" ELSE "")
Next == /\ err = "" /\ k < Len(Tr.ev) /\ k' = k + 1 /\ UNCHANGED tid
        /\ CASE e.o = "track" -> s' = TLCEval(TrackStep(s, Tr.in[Visit(Len(Tr.in), o)[e.i]], o)) /\ err' = ""
             [] e.o = "block" -> s' = BlockStep(s, e) /\ err' = ""
             [] e.o = "full" -> OnFull
             [] OTHER -> OnOut
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err]))
          ELSE IF k = Len(Tr.ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
