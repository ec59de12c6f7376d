---------------------------- MODULE Vp9Level ----------------------------
(* Stream statistics and the level of a VP9 stream, as functions of the whole
   history of frames.  Numbers beyond 31 bits are sequences of base-10000 digits,
   least significant first; times are pairs <<seconds, nanoseconds>>.
   A frame: [t, w, h, sz, alt, key, depth, refresh, cols]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---- natural numbers
Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE Carry(_, _, _)
Carry(s, i, c) == IF i > Len(s) THEN (IF c = 0 THEN <<>> ELSE <<c % 10000>> \o Carry(s, i, c \div 10000))
                  ELSE <<(s[i] + c) % 10000>> \o Carry(s, i + 1, (s[i] + c) \div 10000)
RECURSIVE Norm(_)
Norm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE Of(_)
Of(n) == IF n = 0 THEN <<>> ELSE <<n % 10000>> \o Of(n \div 10000)
Max2(a, b) == IF a > b THEN a ELSE b
Add(a, b) == Norm(Carry([i \in 1..Max2(Len(a), Len(b)) |-> Dig(a, i) + Dig(b, i)], 1, 0))
Mul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
             ELSE Norm(Carry([k \in 1..(Len(a) + Len(b)) |->
                    LET S[i \in 0..Len(a)] == IF i = 0 THEN 0 ELSE S[i - 1] + (IF k + 1 - i >= 1 THEN a[i] * Dig(b, k + 1 - i) ELSE 0)
                    IN  S[Len(a)]], 1, 0))
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF Dig(a, i) # Dig(b, i) THEN (IF Dig(a, i) < Dig(b, i) THEN -1 ELSE 1) ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == CmpAt(a, b, Max2(Len(a), Len(b)))
Le(a, b) == Cmp(a, b) <= 0
Lt(a, b) == Cmp(a, b) < 0
Billion == <<0, 0, 10>>
\* ---- times
TLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
TSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] - b[2] + 1000000000>>
TNs(a) == Add(Mul(Of(a[1]), Billion), Of(a[2]))
\* b is less than one second before a
InWindow(a, b) == LET d == TSub(a, b) IN d[1] < 1
\* ---- statistics of a history h
Luma(f) == Mul(Of(f.w), Of(f.h))
RECURSIVE SumF(_, _, _)
SumF(F(_), i, j) == IF i > j THEN <<>> ELSE Add(F(i), SumF(F, i + 1, j))
RECURSIVE MaxF(_, _, _)
MaxF(F(_), i, j) == IF i > j THEN <<>> ELSE LET m == MaxF(F, i + 1, j)
                                              f == F(i) IN IF Lt(m, f) THEN f ELSE m
MaxInt(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
\* samples of the frames j..i that start less than a second before frame i
RECURSIVE Recent(_, _, _, _)
Recent(h, L, i, j) == IF j = 0 \/ ~InWindow(h[i].t, h[j].t) THEN <<>> ELSE Add(L[j], Recent(h, L, i, j - 1))
LumaRate(h) == LET L == TLCEval([i \in 1..Len(h) |-> Luma(h[i])])
                   At(i) == Recent(h, L, i, i)
               IN  MaxF(At, 1, Len(h))
PictureSize(h) == LET At(i) == Luma(h[i]) IN MaxF(At, 1, Len(h))
Breadth(h) == MaxInt({h[i].w : i \in 1..Len(h)} \cup {h[i].h : i \in 1..Len(h)})
Bytes(h, i, j) == LET At(k) == Of(h[k].sz) IN SumF(At, i, j)
Peak(h) == LET At(i) == Bytes(h, Max2(1, i - 3), i) IN MaxF(At, 1, Len(h))             \* bytes of four consecutive frames
Compressed(h) == Bytes(h, 1, Len(h))
Uncompressed(h) == LET At(i) == IF h[i].alt = 1 THEN <<>> ELSE Mul(Luma(h[i]), Of((h[i].depth * 3) \div 2)) IN SumF(At, 1, Len(h))
Displayed(h) == Cardinality({i \in 1..Len(h) : h[i].alt = 0})
Columns(h) == MaxInt({h[i].cols : i \in 1..Len(h)})
\* displayed frames between neighbouring altrefs
AltGaps(h) == LET A == {i \in 1..Len(h) : h[i].alt = 1}
              IN  {p[2] - p[1] - 1 : p \in {q \in A \X A : q[1] < q[2] /\ \A k \in A : ~(q[1] < k /\ k < q[2])}}
Altref(h) == IF AltGaps(h) = {} THEN -1 ELSE CHOOSE x \in AltGaps(h) : \A y \in AltGaps(h) : x <= y
LastKey(h, i) == MaxInt({k \in 1..i : h[k].key = 1})
BitSet(n) == {b \in 0..7 : (n \div 2 ^ b) % 2 = 1}
Stored(h, i) == IF h[i].key = 1 THEN 0 ELSE Cardinality(UNION {BitSet(h[k].refresh) : k \in (LastKey(h, i) + 1)..i})
References(h) == MaxInt({Stored(h, i) : i \in 1..Len(h)})
(* average bitrate in kbit/s, as num/den; den = <<>> when it is not defined.
   dur: <<-1, 0>> or the duration set; est: estimate the last frame's duration. *)
Rate(h, dur, est) ==
  LET fd == TSub(h[Len(h)].t, h[1].t)
      set == dur[1] >= 0
      base == IF set THEN dur ELSE fd
      more == est /\ (~set \/ TLe(dur, fd))
      n == Displayed(h) - 1
  IN IF more /\ n < 1 THEN [num |-> <<>>, den |-> <<>>]
     ELSE IF more THEN [num |-> Mul(Mul(Compressed(h), Billion), Of(n)), den |-> Mul(Of(125), Add(Mul(TNs(base), Of(n)), TNs(fd)))]
     ELSE [num |-> Mul(Compressed(h), Billion), den |-> Mul(Of(125), TNs(base))]
\* ---- the level table: sample rate, picture size, breadth, bitrate, buffer (0: no limit), ratio, tiles, altref distance, references
K(a, b, c) == Add(Add(Mul(Of(a), <<0, 100>>), Mul(Of(b), Of(1000))), Of(c))    \* a b c in thousands
Level(l, rate, size, breadth, kbps, cpb, cr, tiles, alt, refs) ==
  [l |-> l, rate |-> rate, size |-> size, breadth |-> breadth, kbps |-> kbps, cpb |-> cpb, cr |-> cr, tiles |-> tiles, alt |-> alt, refs |-> refs]
Table == <<
  Level(10, K(0, 829, 440), K(0, 36, 864), 512, 200, 400, 2, 1, 4, 8),
  Level(11, K(2, 764, 800), K(0, 73, 728), 768, 800, 1000, 2, 1, 4, 8),
  Level(20, K(4, 608, 0), K(0, 122, 880), 960, 1800, 1500, 2, 1, 4, 8),
  Level(21, K(9, 216, 0), K(0, 245, 760), 1344, 3600, 2800, 2, 2, 4, 8),
  Level(30, K(20, 736, 0), K(0, 552, 960), 2048, 7200, 6000, 2, 4, 4, 8),
  Level(31, K(36, 864, 0), K(0, 983, 40), 2752, 12000, 10000, 2, 4, 4, 8),
  Level(40, K(83, 558, 400), K(2, 228, 224), 4160, 18000, 16000, 4, 4, 4, 8),
  Level(41, K(160, 432, 128), K(2, 228, 224), 4160, 30000, 18000, 4, 4, 5, 6),
  Level(50, K(311, 951, 360), K(8, 912, 896), 8384, 60000, 36000, 6, 8, 6, 4),
  Level(51, K(588, 251, 136), K(8, 912, 896), 8384, 120000, 46000, 8, 8, 10, 4),
  Level(52, K(1176, 502, 272), K(8, 912, 896), 8384, 180000, 0, 8, 8, 10, 4),
  Level(60, K(1176, 502, 272), K(35, 651, 584), 16832, 180000, 0, 8, 16, 10, 4),
  Level(61, K(2353, 4, 544), K(35, 651, 584), 16832, 240000, 0, 8, 16, 10, 4),
  Level(62, K(4706, 9, 88), K(35, 651, 584), 16832, 480000, 0, 8, 16, 10, 4)>>
(* All limits of one level.  grace: tenths of a percent added to the sample rate.
   tie: comparisons of rounded quantities that are equal up to rounding count as this. *)
Near(a, b) == LET A == Mul(a, Of(1000000000)) B == Mul(b, Of(1000000000)) IN Le(A, Add(B, b)) /\ Le(B, Add(A, a))
LeTie(a, b, tie) == IF Near(a, b) THEN tie ELSE Le(a, b)
Stats(h, dur, est) ==
  [rate |-> LumaRate(h), size |-> PictureSize(h), breadth |-> Breadth(h), kbps |-> Rate(h, dur, est), peak |-> Peak(h),
   comp |-> Compressed(h), raw |-> Uncompressed(h), cols |-> Columns(h), alt |-> Altref(h), refs |-> References(h)]
Fits(v, s, grace, tie) ==
  /\ LeTie(Mul(s.rate, Of(1000)), Mul(v.rate, Of(1000 + grace)), tie)
  /\ Le(s.size, v.size)
  /\ s.breadth <= v.breadth
  /\ LeTie(s.kbps.num, Mul(Of(v.kbps), s.kbps.den), tie)
  /\ (v.cpb > 0 => Le(s.peak, Mul(Of(v.cpb), Of(125))))
  /\ Le(Mul(Mul(Of(v.cr), s.comp), Of(8)), s.raw)
  /\ s.cols <= v.tiles
  /\ (s.alt # -1 => s.alt >= v.alt)
  /\ s.refs <= v.refs
Smallest(s, grace, tie) ==
  LET F == {i \in 1..Len(Table) : Fits(Table[i], s, grace, tie)}
  IN  IF F = {} THEN 0 ELSE Table[CHOOSE i \in F : \A j \in F : i <= j].l
=============================================================================
