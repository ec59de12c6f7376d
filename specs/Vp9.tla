------------------------------- MODULE Vp9 -------------------------------
(* The VP9 uncompressed frame header (VP9 bitstream specification, 6.2), as a
   function from bits to fields.  A reading state is
     [p |-> next bit, ok |-> no read past the end so far].
   Slots: the frame sizes of the eight reference slots, <<0,0>> when unknown. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
BitsOf(b) == TLCEval([i \in 1..(8 * Len(b)) |-> (b[((i - 1) \div 8) + 1] \div (2 ^ (7 - ((i - 1) % 8)))) % 2])

\* n bits of x from position p, most significant first (0 beyond the end)
RECURSIVE Lit(_, _, _)
Lit(x, p, n) == IF n = 0 THEN 0 ELSE 2 * Lit(x, p, n - 1) + (IF p + n - 1 <= Len(x) THEN x[p + n - 1] ELSE 0)
Bit(x, p) == IF p <= Len(x) THEN x[p] ELSE 0

Sync == 4817730            \* 0x498342
SrgbSpace == 7
\* ---- colour configuration: [p, depth, cs, odd]; odd: a stream no profile allows
Colour(x, p, prof) ==
  LET p1 == IF prof >= 2 THEN p + 1 ELSE p
      depth == IF prof < 2 THEN 8 ELSE IF Bit(x, p) = 1 THEN 12 ELSE 10
      cs == Lit(x, p1, 3)
      p2 == p1 + 3
      full == prof \in {1, 3}
  IN IF cs # SrgbSpace
     THEN IF full THEN [p |-> p2 + 4, depth |-> depth, cs |-> cs,
                        odd |-> Bit(x, p2 + 3) = 1 \/ (Bit(x, p2 + 1) = 1 /\ Bit(x, p2 + 2) = 1)]
          ELSE [p |-> p2 + 1, depth |-> depth, cs |-> cs, odd |-> FALSE]
     ELSE IF full THEN [p |-> p2 + 1, depth |-> depth, cs |-> cs, odd |-> Bit(x, p2) = 1]
          ELSE [p |-> p2, depth |-> depth, cs |-> cs, odd |-> TRUE]
\* ---- sizes
FrameSize(x, p) == [p |-> p + 32, w |-> Lit(x, p, 16) + 1, h |-> Lit(x, p + 16, 16) + 1]
RenderSize(x, p, w, h) ==
  IF Bit(x, p) = 1 THEN [p |-> p + 33, dw |-> Lit(x, p + 1, 16) + 1, dh |-> Lit(x, p + 17, 16) + 1]
  ELSE [p |-> p + 1, dw |-> w, dh |-> h]
Sizes(x, p) == LET f == FrameSize(x, p)
                   r == RenderSize(x, f.p, f.w, f.h)
               IN  [p |-> r.p, w |-> f.w, h |-> f.h, dw |-> r.dw, dh |-> r.dh, own |-> TRUE]
\* inter frames: three found_ref flags (until one is set), else a size of its own
SizesWithRefs(x, p, ref, slots) ==
  IF Bit(x, p) = 0 /\ Bit(x, p + 1) = 0 /\ Bit(x, p + 2) = 0 THEN Sizes(x, p + 3)
  ELSE LET i == CHOOSE i \in 1..3 : Bit(x, p + i - 1) = 1 /\ \A j \in 1..(i - 1) : Bit(x, p + j - 1) = 0
           s == slots[ref[i] + 1]
           r == RenderSize(x, p + i, s[1], s[2])
       IN  [p |-> r.p, w |-> s[1], h |-> s[2], dw |-> r.dw, dh |-> r.dh, own |-> FALSE]
\* ---- loop filter, quantizer, segmentation: only their lengths matter
RECURSIVE Updates(_, _, _, _)      \* n optional values of w bits
Updates(x, p, n, w) == IF n = 0 THEN p ELSE Updates(x, IF Bit(x, p) = 1 THEN p + 1 + w ELSE p + 1, n - 1, w)
LoopFilter(x, p) ==
  IF Bit(x, p + 9) = 0 THEN p + 10
  ELSE IF Bit(x, p + 10) = 0 THEN p + 11 ELSE Updates(x, p + 11, 6, 7)
Quantizer(x, p) == Updates(x, p + 8, 3, 5)
FeatureBits == <<9, 7, 2, 0>>      \* value and sign
RECURSIVE Features(_, _, _)
Features(x, p, k) == IF k = 32 THEN p ELSE Features(x, IF Bit(x, p) = 1 THEN p + 1 + FeatureBits[(k % 4) + 1] ELSE p + 1, k + 1)
Segmentation(x, p) ==
  IF Bit(x, p) = 0 THEN p + 1
  ELSE LET q == IF Bit(x, p + 1) = 0 THEN p + 2
                ELSE LET t == Updates(x, p + 2, 7, 8) IN IF Bit(x, t) = 1 THEN Updates(x, t + 1, 3, 8) ELSE t + 1
       IN  IF Bit(x, q) = 0 THEN q + 1 ELSE Features(x, q + 2, 0)
\* ---- tiles
SbCols(w) == (((w + 7) \div 8) + 7) \div 8
MinLog2(sb) == CHOOSE m \in 0..10 : 64 * 2 ^ m >= sb /\ (m = 0 \/ 64 * 2 ^ (m - 1) < sb)
MaxLog2(sb) == IF sb < 8 THEN 0 ELSE CHOOSE m \in 1..10 : sb \div (2 ^ m) >= 4 /\ sb \div (2 ^ (m + 1)) < 4
RECURSIVE Ones(_, _, _)            \* number of 1 bits, at most n
Ones(x, p, n) == IF n = 0 \/ Bit(x, p) = 0 THEN 0 ELSE 1 + Ones(x, p + 1, n - 1)
Tiles(x, p, w) ==
  LET sb == SbCols(w)
      n == MaxLog2(sb) - MinLog2(sb)
      k == Ones(x, p, n)
      q == p + (IF k = n THEN n ELSE k + 1)
      rows == IF Bit(x, q) = 0 THEN 0 ELSE 1 + Bit(x, q + 1)
  IN  [p |-> IF rows = 0 THEN q + 1 ELSE q + 2, cols |-> 2 ^ (MinLog2(sb) + k), rows |-> 2 ^ rows]
\* ---- everything after the frame size
Rest(x, p, er, w) ==
  LET fpm == IF er = 1 THEN 1 ELSE Bit(x, p + 1)
      q == (IF er = 1 THEN p ELSE p + 2) + 2
      t == Tiles(x, Segmentation(x, Quantizer(x, LoopFilter(x, q))), w)
  IN  [p |-> t.p, fpm |-> fpm, cols |-> t.cols, rows |-> t.rows]

(* verdict: "bad" malformed (to be refused), "odd" reserved values (either), "ok".
   Fields a frame does not carry are -1. *)
Bad == [v |-> "bad"]
Fin(x, p, odd, r) == IF p - 1 > Len(x) THEN Bad ELSE [r EXCEPT !.v = IF odd THEN "odd" ELSE "ok"]
Refreshed(fl) == {i \in 1..8 : (fl \div (2 ^ (i - 1))) % 2 = 1}
Decode(b, slots) ==
  LET x == BitsOf(b)
      prof == Bit(x, 3) + 2 * Bit(x, 4)
      p0 == IF prof = 3 THEN 6 ELSE 5            \* show_existing_frame
      key == 1 - Bit(x, p0 + 1)
      alt == 1 - Bit(x, p0 + 2)
      er == Bit(x, p0 + 3)
      p1 == p0 + 4
      base == [v |-> "ok", existing |-> FALSE, prof |-> prof, key |-> key, alt |-> alt, er |-> er, depth |-> -1, cs |-> -1, refresh |-> 0, set |-> {},
               w |-> -1, h |-> -1, dw |-> -1, dh |-> -1, fpm |-> -1, cols |-> -1, rows |-> -1]
  IN IF Len(b) = 0 \/ Lit(x, 1, 2) # 2 \/ (prof = 3 /\ Bit(x, 5) = 1) THEN Bad
     ELSE IF Bit(x, p0) = 1 THEN Fin(x, p0 + 4, FALSE, [base EXCEPT !.existing = TRUE, !.key = 0, !.alt = 0, !.er = 0])
     ELSE IF key = 1
     THEN IF Lit(x, p1, 24) # Sync THEN Bad
          ELSE LET c == Colour(x, p1 + 24, prof)
                   s == Sizes(x, c.p)
                   t == Rest(x, s.p, er, s.w)
               IN  Fin(x, t.p, c.odd, [base EXCEPT !.depth = c.depth, !.cs = c.cs, !.w = s.w, !.h = s.h, !.dw = s.dw, !.dh = s.dh,
                       !.fpm = t.fpm, !.cols = t.cols, !.rows = t.rows, !.set = 1..8])
     ELSE LET intra == alt = 1 /\ Bit(x, p1) = 1
              p2 == IF alt = 1 THEN p1 + 1 ELSE p1
              p3 == IF er = 1 THEN p2 ELSE p2 + 2
          IN IF intra
             THEN IF Lit(x, p3, 24) # Sync THEN Bad
                  ELSE LET c == IF prof = 0 THEN [p |-> p3 + 24, depth |-> 8, cs |-> 1, odd |-> FALSE] ELSE Colour(x, p3 + 24, prof)
                           fl == Lit(x, c.p, 8)
                           s == Sizes(x, c.p + 8)
                           t == Rest(x, s.p, er, s.w)
                       IN  Fin(x, t.p, c.odd, [base EXCEPT !.depth = c.depth, !.cs = c.cs, !.refresh = fl, !.w = s.w, !.h = s.h,
                               !.dw = s.dw, !.dh = s.dh, !.fpm = t.fpm, !.cols = t.cols, !.rows = t.rows, !.set = Refreshed(fl)])
             ELSE LET fl == Lit(x, p3, 8)
                      ref == [i \in 1..3 |-> Lit(x, p3 + 8 + 4 * (i - 1), 3)]
                      s == SizesWithRefs(x, p3 + 20, ref, slots)
                      q == s.p + 1                                   \* allow_high_precision_mv
                      q2 == IF Bit(x, q) = 1 THEN q + 1 ELSE q + 3   \* interpolation filter
                  IN  IF s.w = 0                                     \* size of an unknown reference
                      THEN IF s.p - 1 > Len(x) THEN Bad ELSE [base EXCEPT !.v = "noref", !.refresh = fl, !.set = Refreshed(fl)]
                      ELSE LET t == Rest(x, q2, er, s.w)
                           IN  Fin(x, t.p, FALSE, [base EXCEPT !.refresh = fl, !.w = s.w, !.h = s.h, !.dw = s.dw, !.dh = s.dh,
                                   !.fpm = t.fpm, !.cols = t.cols, !.rows = t.rows, !.set = Refreshed(fl)])
=============================================================================
