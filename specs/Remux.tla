------------------------------- MODULE Remux -------------------------------
(* The remuxing tool: the tracks of the input are visited one after the other (the state is
   the list of tracks of the output and what became of them), then its blocks; every frame of a
   wanted track becomes a block of its own in the output.
   A track is [n, ty, f] with f a record of metadata texts ("none": absent);
   o are the options of the run. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

VideoTy == 1
AudioTy == 2
NewRun == [trk |-> <<>>, fail |-> FALSE, out |-> <<>>]
Wanted(o, ty) == (ty = VideoTy /\ o.video) \/ (ty = AudioTy /\ o.audio)
Visit(n, o) == [i \in 1..n |-> IF o.switch THEN (i % n) + 1 ELSE i]   \* order of visiting

Nums(s) == {s.trk[i].n : i \in 1..Len(s.trk)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
FreeNumber(s) == MinOf({n \in (Len(s.trk) + 1)..(2 * Len(s.trk) + 1) : n \notin Nums(s)})
Number(s, want) == IF want = 0 THEN FreeNumber(s) ELSE want
NumberOk(s, want) == want >= 0 /\ want <= 126 /\ want \notin Nums(s)

Over(o, name, x) == IF name \in DOMAIN o.over THEN o.over[name] ELSE x
ProjFields == {"ptype", "ppriv", "pyaw", "ppitch", "proll"}
HasProj(o, f) == f.ptype # "none" \/ "ptype" \in DOMAIN o.over
Given(x, name) == IF x = "none" /\ name \in {"pyaw", "ppitch", "proll"} THEN "0.0" ELSE x   \* a projection has a pose
\* "any": not claimed
VideoFields(o, f) ==
  [name \in DOMAIN f |->
     IF name \in ProjFields THEN IF HasProj(o, f) THEN Given(Over(o, name, f[name]), name) ELSE "none"
     ELSE IF name \in {"dw", "dh", "stereo"} THEN Over(o, name, "any")
     ELSE IF name = "priv" THEN IF f.codec = "V_VP9" /\ o.vp9 # "none" THEN o.vp9 ELSE f.priv
     ELSE Over(o, name, f[name])]
VideoRefused(o, f) ==
  \/ f.codec = "V_AV1" /\ f.priv = "none"
  \/ f.codec = "V_VP9" /\ o.vp9bad
  \/ /\ "ptype" \in DOMAIN o.over
     /\ \/ o.over.ptype = "0" /\ "ppriv" \in DOMAIN o.over
        \/ o.over.ptype \in {"2", "3"} /\ "ppriv" \notin DOMAIN o.over
TrackStep(s, t, o) ==
  LET want == IF t.ty = VideoTy THEN o.vnum ELSE o.anum
  IN IF s.fail \/ ~Wanted(o, t.ty) THEN s
     ELSE IF ~NumberOk(s, want) \/ (t.ty = VideoTy /\ VideoRefused(o, t.f)) THEN [s EXCEPT !.fail = TRUE]
     ELSE [s EXCEPT !.trk = Append(@, [n |-> Number(s, want), ty |-> t.ty, from |-> t.n,
                                       f |-> IF t.ty = VideoTy THEN VideoFields(o, t.f) ELSE t.f])]
\* the output track of an input track, 0 if it has none
Target(s, n) == LET S == {i \in 1..Len(s.trk) : s.trk[i].from = n} IN IF S = {} THEN 0 ELSE s.trk[CHOOSE i \in S : TRUE].n
BlockStep(s, b) ==
  LET n == Target(s, b.trk)
  IN IF s.fail \/ n = 0 THEN s
     ELSE [s EXCEPT !.out = @ \o [i \in 1..Len(b.fr) |-> [trk |-> n, t |-> b.t, key |-> b.key, dp |-> b.dp, fr |-> b.fr[i]]]]
OfTrack(q, n) == SelectSeq(q, LAMBDA x : x.trk = n)

\* the track that cue points refer to; 0: the library chooses
CueTrack(s, o) ==
  LET S(ty) == {i \in 1..Len(s.trk) : s.trk[i].ty = ty}
      want == IF o.cuesaudio THEN AudioTy ELSE IF o.cuesvideo THEN VideoTy ELSE 0
  IN IF S(want) = {} THEN 0 ELSE s.trk[CHOOSE i \in S(want) : TRUE].n
CueFrames(s, o) == LET c == CueTrack(s, o) IN SelectSeq(s.out, LAMBDA x : (c = 0 \/ x.trk = c) /\ x.key)
\* How the frames are put into clusters: b holds the limits (b.ticks, b.size with 0 for none), c is the
\* list of clusters [t, size, bl] of the output.  Claimed for output of one track: with two, audio is
\* held back until the video allows it (and the muxer's own checks decide).
TooLate(b, x, t) == t - x.t >= b.ticks \/ t - x.t > 32767
\* no frame beyond the limits
ClusterFull(b, x) == \E i \in 2..Len(x.bl) : TooLate(b, x, x.bl[i].t) \/ (b.size > 0 /\ x.bl[i].at >= b.size)
\* video key frames start clusters
KeyInside(x) == \E i \in 2..Len(x.bl) : x.bl[i].key
\* a cluster is started for a reason
Reason(video, b, x, y) == (video /\ y.bl[1].key) \/ TooLate(b, x, y.t) \/ (b.size > 0 /\ x.size >= b.size)
ClustersErr(s, b, c) ==
  IF \E i \in 1..Len(c) : c[i].wide # b.wide \/ c[i].bl = <<>> THEN "time of a cluster, or no frames"
  ELSE IF ~b.exact \/ Len(s.trk) # 1 THEN ""
  ELSE LET video == s.trk[1].ty = VideoTy IN
       IF \E i \in 1..Len(c) : ClusterFull(b, c[i]) THEN "cluster beyond its limits"
       ELSE IF video /\ \E i \in 1..Len(c) : KeyInside(c[i]) THEN "video key frame inside a cluster"
       ELSE IF \E i \in 2..Len(c) : ~Reason(video, b, c[i - 1], c[i]) THEN "cluster without a reason" ELSE ""
WithCues(o) == o.cues /\ ~o.live
\* without cue points there is nothing to put before the clusters
CanMove(s, o) == WithCues(o) /\ CueFrames(s, o) # <<>>
=============================================================================
