------------------------------- MODULE MCMux -------------------------------
(* Every short muxing session over a small domain: a layout of tracks, the settings that
   change how frames are grouped, and all sequences of Depth calls.  The session properties
   are checked in every state; complete sessions are printed and replayed into the code. *)
EXTENDS Mux, TLC, Json
CONSTANTS Depth, Layouts, Accs, MaxDs, MaxSs, Emit_
VARIABLES s, h, cfg
vars == <<s, h, cfg>>
Types == [V |-> 1, A |-> 2, M |-> 33]
LayoutSeq(l) == CASE l = "VA" -> <<"V", "A">> [] l = "AV" -> <<"A", "V">> [] l = "A" -> <<"A">>
                  [] l = "VM" -> <<"V", "M">> [] l = "VAA" -> <<"V", "A", "A">> [] l = "AA" -> <<"A", "A">>
WithTracks(l, acc, md, ms) ==
  LET q == LayoutSeq(l)
      z == [NewSession(4, 0, TRUE, md) EXCEPT !.acc = (acc = 1), !.maxs = ms]
  IN FoldLeft(LAMBDA a, c : TrackStep(a, 0, Types[c], c = "V")[1], z, q)
Init == \E l \in Layouts, a \in Accs, m \in MaxDs, z \in MaxSs :
          /\ cfg = [lay |-> l, acc |-> a, maxd |-> m, maxs |-> z]
          /\ s = WithTracks(l, a, m, z) /\ h = <<>>
Frame(n, t, key) ==
  [id |-> 0, trk |-> n, t |-> t, key |-> key, len |-> 8, p |-> "", dur |-> 0, ds |-> FALSE, dp |-> "0",
   dpw |-> 1, al |-> 0, aid |-> 0, ap |-> "", ref |-> -1, bad |-> FALSE, adur |-> FALSE]
Newest == MaxOf({0} \cup {s.acd[i].t : i \in 1..Len(s.acd)})
Steps == {0, 3, 8, 4 * 32767 + 1, 4 * 32768}
AddFrame ==
  \E i \in 1..Len(s.trk), d \in Steps \cup {-4}, key \in BOOLEAN :
    /\ s.trk[i].ty # 1 => key
    /\ s.trk[i].ty = 1 => d # -4
    /\ Newest + d >= 0
    /\ LET f == Frame(s.trk[i].n, Newest + d, key)
           r == Step(s, [op |-> "F", f |-> f])
       IN s' = r[1] /\ h' = Append(h, [op |-> "F", trk |-> f.trk, t |-> f.t, key |-> IF key THEN 1 ELSE 0])
ForceCluster == s' = Step(s, [op |-> "FC"])[1] /\ h' = Append(h, [op |-> "FC", trk |-> 0, t |-> 0, key |-> 0])
UserCue == /\ s.cl # <<>>
           /\ s' = Step(s, [op |-> "CP", t |-> Newest, trk |-> s.trk[1].n])[1]
           /\ h' = Append(h, [op |-> "CP", trk |-> s.trk[1].n, t |-> Newest, key |-> 0])
Finish == /\ Len(h) = Depth /\ ~s.fin
          /\ s' = [Step(s, [op |-> "FIN"])[1] EXCEPT !.fin = TRUE]
          /\ h' = Append(h, [op |-> "FIN", trk |-> 0, t |-> 0, key |-> 0])
Next == /\ UNCHANGED cfg
        /\ \/ Len(h) < Depth /\ (AddFrame \/ ForceCluster \/ UserCue)
           \/ Finish
Spec == Init /\ [][Next]_vars
Emitted == Emit_ = 0 \/ Len(h) <= Depth \/ PrintT("H " \o ToJson([cfg |-> cfg, h |-> h]))

\* ---------------------------------------------------------------- session properties
AllConserved == Conserved(s)
AllInOrder == InOrder(s)
AllRepresentable == Representable(s)
AllKeyFrameCuts == KeyFrameCuts(s)
AllCuesLead == CuesLead(s)
AllDurationsClosed == DurationsClosed(s)
\* M01: a finished session that was started holds nothing back
NothingHeld == s.fin /\ s.cl # <<>> => s.q = <<>> /\ Held(s) = <<>>
\* M03: one automatic cue per cluster with a frame of the cue track, unless the user placed one
OneCue == s.fin => \A i \in 1..Len(s.cl) :
   LET cs == {j \in 1..Len(s.cue) : s.cue[j].ci = i}
       has == \E j \in 1..Len(s.cl[i].bl) : s.cl[i].bl[j].trk = s.ct
   IN /\ Cardinality({j \in cs : ~s.cue[j].u}) <= 1
      /\ has /\ (\A j \in cs : ~s.cue[j].u) => Cardinality(cs) = 1
\* M02: cluster times never decrease, and a block is never later than the next cluster's limit
ClusterTimes == \A i \in 1..(Len(s.cl) - 1) : s.cl[i].tc <= s.cl[i + 1].tc
=============================================================================
