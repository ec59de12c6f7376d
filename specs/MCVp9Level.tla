--------------------------- MODULE MCVp9Level ---------------------------
(* The statistics kept incrementally (windows that are pushed and popped, running
   maxima, a set of refreshed references) agree with their definitions over the
   whole history, whatever the history; every limit of the level table except the
   number of references is monotone, so a level whose other limits fail is never
   below one whose limits hold.  Histories are printed and replayed. *)
EXTENDS Vp9Level, Json, TLC
CONSTANT MaxLen, Gaps, Kinds
Gaps2 == {<<0, 500000000>>, <<0, 999999999>>, <<1, 0>>}
Kinds4 == {<<8, 10, 0, 1, 0>>, <<16, 3, 0, 0, 1>>, <<8, 1, 1, 0, 2>>, <<24, 7, 0, 0, 3>>}
VARIABLES h, lw, curl, maxl, cw, curc, maxc, first, since, dist, refr, maxr, disp
vars == <<h, lw, curl, maxl, cw, curc, maxc, first, since, dist, refr, maxr, disp>>
Init == /\ h = <<>> /\ lw = <<>> /\ curl = 0 /\ maxl = 0 /\ cw = <<>> /\ curc = 0 /\ maxc = 0 /\ first = TRUE /\ since = 0 /\ dist = -1
        /\ refr = {} /\ maxr = 0 /\ disp = 0
TAdd(a, b) == IF a[2] + b[2] >= 1000000000 THEN <<a[1] + b[1] + 1, a[2] + b[2] - 1000000000>> ELSE <<a[1] + b[1], a[2] + b[2]>>
\* kinds of frames: size, bytes, altref, key, refresh flags
Frame(kd, t) == [t |-> t, w |-> kd[1], h |-> 8, sz |-> kd[2], alt |-> kd[3], key |-> kd[4], depth |-> 8, refresh |-> kd[5], cols |-> 1]
RECURSIVE Pop(_, _)
Pop(q, t) == IF q = <<>> \/ InWindow(t, q[1][1]) THEN q ELSE Pop(SubSeq(q, 2, Len(q)), t)
RECURSIVE Sum2(_)
Sum2(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Sum2(SubSeq(q, 2, Len(q)))
Add1(f) ==
  LET lq == Pop(lw, f.t)
      cq == IF Len(cw) > 3 THEN SubSeq(cw, 2, Len(cw)) ELSE cw
      cl == curl - (Sum2(lw) - Sum2(lq)) + f.w * f.h
      cc == curc - (Sum2(cw) - Sum2(cq)) + f.sz
      rf == IF f.key = 1 THEN {} ELSE refr \cup BitSet(f.refresh)
  IN /\ h' = Append(h, f)
     /\ lw' = Append(lq, <<f.t, f.w * f.h>>) /\ curl' = cl /\ maxl' = Max2(maxl, cl)
     /\ cw' = Append(cq, <<f.t, f.sz>>) /\ curc' = cc /\ maxc' = Max2(maxc, cc)
     /\ IF f.alt = 1 THEN /\ first' = FALSE /\ since' = 0 /\ disp' = disp
                          /\ dist' = IF first THEN dist ELSE IF dist = -1 \/ since < dist THEN since ELSE dist
        ELSE first' = first /\ since' = since + 1 /\ dist' = dist /\ disp' = disp + 1
     /\ refr' = rf /\ maxr' = Max2(maxr, Cardinality(rf))
Next == /\ Len(h) < MaxLen
        /\ \E g \in Gaps, kd \in Kinds : Add1(Frame(kd, IF h = <<>> THEN <<0, 0>> ELSE TAdd(h[Len(h)].t, g)))
Agree == /\ LumaRate(h) = Of(maxl) /\ Peak(h) = Of(maxc) /\ Altref(h) = dist /\ References(h) = maxr /\ Displayed(h) = disp
         /\ curl = Sum2(lw) /\ curc = Sum2(cw)
Monotone == \A i \in 1..(Len(Table) - 1) :
  LET a == Table[i] b == Table[i + 1] IN
  /\ a.l < b.l /\ Le(a.rate, b.rate) /\ Le(a.size, b.size) /\ a.breadth <= b.breadth /\ a.kbps <= b.kbps /\ (b.cpb = 0 \/ (a.cpb > 0 /\ a.cpb <= b.cpb))
  /\ a.cr <= b.cr /\ a.tiles <= b.tiles /\ a.alt <= b.alt /\ a.refs >= b.refs
ASSUME Monotone
Show == Len(h) = MaxLen => PrintT("H " \o ToJson(h))
Spec == Init /\ [][Next]_vars
=============================================================================
