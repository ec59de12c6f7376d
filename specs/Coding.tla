------------------------------- MODULE Coding -------------------------------
(* EBML numbers.  TLC's integers have 32 bits, so a 64-bit value is the tuple
   of its 8 bytes, most significant first; negative numbers are in two's
   complement.  The module says how values are written in a given number of
   bytes, which numbers of bytes can hold them, and what any sequence of bytes
   means when read back. *)
EXTENDS Integers, Sequences, FiniteSets
P2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16
           [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256
Smallest(S) == CHOOSE x \in S : \A y \in S : x <= y
Low(v, n) == SubSeq(v, 9 - n, 8)                       \* the last n bytes
ZeroExt(b) == [i \in 1..8 |-> IF i > 8 - Len(b) THEN b[i - (8 - Len(b))] ELSE 0]
SignExt(b) == [i \in 1..8 |-> IF i > 8 - Len(b) THEN b[i - (8 - Len(b))] ELSE IF b[1] >= 128 THEN 255 ELSE 0]
Negative(v) == v[1] >= 128
Small(n) == <<0, 0, 0, 0, n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>   \* a TLC integer as a value

------------------------------------------------------------------------------
\* Plain integers: the fewest bytes that hold the value.
UIntLen(v) == LET S == {i \in 1..8 : v[i] # 0} IN IF S = {} THEN 1 ELSE 9 - Smallest(S)
IntLen(v) == Smallest({n \in 1..8 : SignExt(Low(v, n)) = v})

\* Coded numbers: w bytes carry 7w bits; all of them set means "unknown".
Ones(w) == [i \in 1..8 |-> IF i < 9 - w THEN 0 ELSE IF i = 9 - w THEN P2(8 - w) - 1 ELSE 255]
Fits(v, w) == /\ \A i \in 1..(8 - w) : v[i] = 0
              /\ v[9 - w] < P2(8 - w)
              /\ v # Ones(w)
Encodable(v) == Fits(v, 8)
CodedLen(v) == Smallest({w \in 1..8 : Fits(v, w)})
Enc(v, w) == [i \in 1..w |-> IF i = 1 THEN v[9 - w] + P2(8 - w) ELSE v[8 - w + i]]

\* Reading back.
Width(b) == CASE b >= 128 -> 1 [] b >= 64 -> 2 [] b >= 32 -> 3 [] b >= 16 -> 4 [] b >= 8 -> 5 [] b >= 4 -> 6 [] b >= 2 -> 7 [] b = 1 -> 8 [] b = 0 -> 9
\* [st, len, v, ones]: st "ok", "eof" (cut short) or "bad" (no length marker)
Coded(b) ==
  IF b = <<>> THEN [st |-> "eof", len |-> 0, v |-> Small(0), ones |-> FALSE]
  ELSE LET w == Width(b[1]) IN
       IF w = 9 THEN [st |-> "bad", len |-> 0, v |-> Small(0), ones |-> FALSE]
       ELSE IF w > Len(b) THEN [st |-> "eof", len |-> w, v |-> Small(0), ones |-> FALSE]
       ELSE LET v == ZeroExt([i \in 1..w |-> IF i = 1 THEN b[1] - P2(8 - w) ELSE b[i]])
            IN  [st |-> "ok", len |-> w, v |-> v, ones |-> v = Ones(w)]
\* Identifiers keep their marker bits and have at most four bytes.
Ident(b) ==
  IF b = <<>> THEN [st |-> "eof", len |-> 0, v |-> Small(0)]
  ELSE LET w == Width(b[1]) IN
       IF w > 4 THEN [st |-> "bad", len |-> 0, v |-> Small(0)]
       ELSE IF w > Len(b) THEN [st |-> "eof", len |-> w, v |-> Small(0)]
       ELSE [st |-> "ok", len |-> w, v |-> ZeroExt(SubSeq(b, 1, w))]

------------------------------------------------------------------------------
\* Elements of one identifier (id: its bytes), as written.
Header(id, n) == id \o Enc(n, CodedLen(n))
UIntElem(id, v, n) == Header(id, Small(n)) \o Low(v, n)
\* A void element that occupies n bytes in all, n >= 2: any split into header and zeros.
IsVoid(b, n) ==
  /\ Len(b) = n /\ n >= 2 /\ b[1] = 236
  /\ LET c == Coded(SubSeq(b, 2, n)) IN
     c.st = "ok" /\ ~c.ones /\ c.v = Small(n - 1 - c.len) /\ \A i \in (2 + c.len)..n : b[i] = 0

------------------------------------------------------------------------------
\* IEEE single (4 bytes) as the double of the same value (8 bytes).
RECURSIVE LeadShift(_)
LeadShift(m) == IF m >= 8388608 THEN 0 ELSE 1 + LeadShift(2 * m)
RECURSIVE Mul2(_, _)
Mul2(m, k) == IF k = 0 THEN m ELSE Mul2(2 * m, k - 1)
Exp4(b) == (b[1] % 128) * 2 + b[2] \div 128
Man4(b) == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
Exp8(b) == (b[1] % 128) * 16 + b[2] \div 16
Finite(b) == IF Len(b) = 4 THEN Exp4(b) # 255 ELSE Exp8(b) # 2047
IsNan(b) == ~Finite(b) /\ (IF Len(b) = 4 THEN Man4(b) # 0 ELSE b[2] % 16 # 0 \/ \E i \in 3..8 : b[i] # 0)
Widen(b) ==
  LET s == b[1] \div 128
      e == Exp4(b)
      m == Man4(b)
      k == IF m = 0 THEN 0 ELSE LeadShift(m)
      E == IF e = 0 THEN (IF m = 0 THEN 0 ELSE 897 - k) ELSE IF e = 255 THEN 2047 ELSE e + 896
      M == IF e = 0 /\ m # 0 THEN Mul2(m, k) - 8388608 ELSE m
  IN  <<s * 128 + E \div 16, (E % 16) * 16 + M \div 524288, (M \div 2048) % 256, (M \div 8) % 256, (M % 8) * 32, 0, 0, 0>>
AsDouble(b) == IF Len(b) = 8 THEN b ELSE Widen(b)

------------------------------------------------------------------------------
\* The laws that make the two sides agree.
Laws(v) ==
  /\ \A w \in 1..8 : Fits(v, w) =>
       LET d == Coded(Enc(v, w)) IN d.st = "ok" /\ d.len = w /\ d.v = v /\ ~d.ones
  /\ \A w \in 1..7 : Fits(v, w) => Fits(v, w + 1)
  /\ Encodable(v) => Fits(v, CodedLen(v)) /\ (CodedLen(v) > 1 => ~Fits(v, CodedLen(v) - 1))
  /\ ZeroExt(Low(v, UIntLen(v))) = v
  /\ UIntLen(v) > 1 => ZeroExt(Low(v, UIntLen(v) - 1)) # v
  /\ SignExt(Low(v, IntLen(v))) = v
  /\ ~Encodable(v) => v[1] # 0 \/ v = Ones(8)
=============================================================================
