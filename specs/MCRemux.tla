------------------------------ MODULE MCRemux ------------------------------
(* Every input of up to two tracks (one video, one audio, in either order, or other types) and
   up to MaxB blocks under every choice of options that select or number tracks: every frame of
   a wanted track is written once, to the track made from its own, in order. *)
EXTENDS Remux
CONSTANTS MaxB
VARIABLES s, o, in, i, hist
vars == <<s, o, in, i, hist>>
Fld(ty) == IF ty = 1 THEN [codec |-> "V_VP8", priv |-> "none", ptype |-> "none", dw |-> "none"] ELSE [codec |-> "A"]
Types == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<17, 1>>, <<17, 2, 1>>}
Opts == [video : BOOLEAN, audio : BOOLEAN, switch : BOOLEAN, vnum : {0, 2, 127}, anum : {0, 1, 2}, over : {<<>>},
         vp9 : {"none"}, vp9bad : {FALSE}, cues : BOOLEAN, live : {FALSE}, cuesaudio : BOOLEAN, cuesvideo : BOOLEAN]
Init == /\ \E ty \in Types : in = [j \in 1..Len(ty) |-> [n |-> j + 3, ty |-> ty[j], f |-> Fld(ty[j])]]
        /\ o \in Opts /\ s = NewRun /\ i = 0 /\ hist = <<>>
AddTrack == i < Len(in) /\ i' = i + 1 /\ s' = TrackStep(s, in[Visit(Len(in), o)[i + 1]], o) /\ UNCHANGED <<o, in, hist>>
AddBlock == /\ i = Len(in) /\ Len(hist) < MaxB
            /\ \E j \in 1..Len(in), n \in 1..2, key \in BOOLEAN :
                 LET b == [trk |-> in[j].n, t |-> Len(hist), key |-> key, dp |-> "0", fr |-> [m \in 1..n |-> <<Len(hist), m>>]] IN
                 s' = BlockStep(s, b) /\ hist' = Append(hist, b)
            /\ UNCHANGED <<o, in, i>>
Next == AddTrack \/ AddBlock
Spec == Init /\ [][Next]_vars
WantedFrames(j) ==
  FoldLeft(LAMBDA acc, b : IF b.trk = in[j].n THEN acc \o b.fr ELSE acc, <<>>, hist)
FramesKept ==
  (i = Len(in) /\ ~s.fail) =>
    \A j \in 1..Len(in) :
      LET n == Target(s, in[j].n) IN
      IF ~Wanted(o, in[j].ty) THEN n = 0
      ELSE n # 0 /\ LET q == OfTrack(s.out, n) IN [x \in 1..Len(q) |-> q[x].fr] = WantedFrames(j)
NumbersDistinct == Cardinality(Nums(s)) = Len(s.trk) /\ Nums(s) \subseteq 1..126
VisitAll == {Visit(Len(in), o)[x] : x \in 1..Len(in)} = 1..Len(in)
=============================================================================
