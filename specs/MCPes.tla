------------------------------- MODULE MCPes -------------------------------
(* Design check: payloads built byte by byte over {0,1,3,other}; whatever has been built, the
   packets for it contain start codes only at packet starts and decode to it.  Small MaxPay so
   that fragmentation and its boundaries are explored exhaustively.  Also the TS packetizer for
   every length up to MaxTs. *)
EXTENDS Pes, TLC, Json
CONSTANTS MaxLen, Alphabet, MaxTs, Out
VARIABLES b, n, cc
vars == <<b, n, cc>>
Init == b = <<>> /\ n = 0 /\ cc = 0
Grow == n = 0 /\ Len(b) < MaxLen /\ \E x \in Alphabet : b' = Append(b, x) /\ UNCHANGED <<n, cc>>
GrowTs == b = <<>> /\ n < MaxTs /\ n' = n + 1 /\ cc' \in {0, 15} /\ UNCHANGED b
Next == Grow \/ GrowTs
Spec == Init /\ [][Next]_vars
Pts == <<5, 12345, 321>>
RoundTrip == b # <<>> =>
   LET s == PacketsOf(b, Pts) \o PacketsOf(b, Pts)
       f == Frames(s)
   IN /\ Len(f) = 2 /\ \A i \in 1..2 : f[i].bad = "" /\ f[i].b = b /\ f[i].pts = Pts
      /\ Cardinality(StartCodes(s)) = 2 * NPk(Len(b))
EscapeInv == Unescape(Escape(b)) = b /\ StartCodes(Escape(b)) = {}
Seq01(m) == [i \in 1..m |-> i % 251]
TsInv == n > 0 =>
   LET t == TsPackets(Seq01(n), cc)
   IN /\ \A i \in 1..Len(t.pk) : Len(t.pk[i]) = 188 /\ TsDecode(t.pk[i]).ok /\ TsDecode(t.pk[i]).start = (i = 1)
                                 /\ TsDecode(t.pk[i]).cc = (cc + i - 1) % 16
      /\ FoldLeft(LAMBDA a, i : a \o TsDecode(t.pk[i]).pay, <<>>, [i \in 1..Len(t.pk) |-> i]) = Seq01(n)
Emit == (Out /\ b # <<>>) => PrintT("B " \o ToJson(b))
=============================================================================
