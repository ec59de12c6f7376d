------------------------------ MODULE WebVtt ------------------------------
(* Executable specification of WebVTT parsing at the level of the public API:
   the parser's state is its position in the text; Init consumes the signature, each Parse
   call consumes one cue.  Text is a sequence of byte values, `e` (0 = never) is the index of
   the character at which the underlying reader fails. *)
EXTENDS Integers, Sequences, SequencesExt

LF == 10
CR == 13
WS == {32, 9}
MaxLine == 10000
Sig == <<87, 69, 66, 86, 84, 84>>     \* "WEBVTT"
Bom == <<239, 187, 191>>
Colon == 58
Dot == 46

MinOf(S) == CHOOSE i \in S : \A k \in S : i <= k
\* first index i >= p that ends the line starting at p
Scan(d, e, p) == MinOf({i \in p..(IF Len(d) < p + MaxLine THEN Len(d) + 1 ELSE p + MaxLine) :
                          i = e \/ i > Len(d) \/ i - p >= MaxLine \/ d[i] \in {LF, CR, 254, 255}})

\* st: -1 error, 0 line delivered, 1 end of stream
GetLine(d, e, p) ==
  LET q == Scan(d, e, p)
      ln == SubSeq(d, p, q - 1)
      Bad == [st |-> -1, ln |-> <<>>, p |-> q]
  IN IF q = e THEN Bad
     ELSE IF q > Len(d) THEN IF q = p THEN [st |-> 1, ln |-> <<>>, p |-> q] ELSE [st |-> 0, ln |-> ln, p |-> q]
     ELSE IF d[q] = LF THEN [st |-> 0, ln |-> ln, p |-> q + 1]
     ELSE IF d[q] = CR THEN
        IF q + 1 = e THEN Bad
        ELSE IF q + 1 <= Len(d) /\ d[q + 1] = LF THEN [st |-> 0, ln |-> ln, p |-> q + 2]
        ELSE [st |-> 0, ln |-> ln, p |-> q + 1]
     ELSE Bad

------------------------------------------------------------------------
\* signature: result [st, p]
Chars(d, e, p, want) ==   \* TRUE iff the characters `want` are delivered at p
  \A i \in 1..Len(want) : p + i - 1 # e /\ p + i - 1 <= Len(d) /\ d[p + i - 1] = want[i]

InitParse(d, e) ==
  LET Fail == [st |-> -1, p |-> 0]
      hasBom == Len(d) >= 1 /\ e # 1 /\ d[1] = Bom[1]
      p0 == IF hasBom THEN 4 ELSE 1
  IN IF hasBom /\ ~Chars(d, e, 1, Bom) THEN Fail
     ELSE IF ~Chars(d, e, p0, Sig) THEN Fail
     ELSE LET l1 == GetLine(d, e, p0 + 6)
          IN IF l1.st = -1 THEN Fail
             ELSE IF l1.st = 1 THEN [st |-> 0, p |-> l1.p]
             ELSE IF l1.ln # <<>> /\ l1.ln[1] \notin WS THEN Fail
             ELSE LET l2 == GetLine(d, e, l1.p)
                  IN IF l2.st = -1 THEN Fail
                     ELSE IF l2.st = 1 THEN [st |-> 0, p |-> l2.p]
                     ELSE IF l2.ln # <<>> THEN Fail
                     ELSE [st |-> 0, p |-> l2.p]

------------------------------------------------------------------------
IsDigit(c) == c >= 48 /\ c <= 57
At(l, i) == IF i <= Len(l) THEN l[i] ELSE 0     \* 0 marks the end of the text
RECURSIVE SkipWs(_, _)
SkipWs(l, i) == IF At(l, i) \in WS THEN SkipWs(l, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(l, i) == IF IsDigit(At(l, i)) THEN DigitsEnd(l, i + 1) ELSE i
RECURSIVE LeadZ(_, _, _)
LeadZ(l, i, j) == IF i < j /\ l[i] = 48 THEN LeadZ(l, i + 1, j) ELSE i
RECURSIVE Dec(_, _, _, _)
Dec(l, i, j, acc) == IF i = j THEN acc ELSE Dec(l, i + 1, j, acc * 10 + (l[i] - 48))
\* [v, n]: value (or -1: none or does not fit in a 32-bit signed integer) and end index
Number(l, i) ==
  LET j == DigitsEnd(l, i)
      z == LeadZ(l, i, j)
      n == j - z
      v9 == Dec(l, z, j - 1, 0)
  IN IF j = i THEN [v |-> -1, n |-> i]
     ELSE IF n <= 9 THEN [v |-> Dec(l, z, j, 0), n |-> j]
     ELSE IF n > 10 \/ v9 > 214748364 \/ (v9 = 214748364 /\ l[j - 1] - 48 > 7) THEN [v |-> -1, n |-> j]
     ELSE [v |-> v9 * 10 + (l[j - 1] - 48), n |-> j]

TFail == [ok |-> FALSE, t |-> <<0, 0, 0, 0>>, n |-> 0]
\* a time specifier at index i of l: SS[.s], MM:SS[.s], HH:MM:SS[.s], 1 to 3 fraction digits
TimeSpec(l, i0) ==
  LET a == Number(l, SkipWs(l, i0))
      b == Number(l, a.n + 1)
      c == Number(l, b.n + 1)
      two == At(l, a.n) = Colon
      three == two /\ b.v >= 0 /\ At(l, b.n) = Colon
      ok == /\ a.v >= 0
            /\ two => b.v >= 0 /\ b.v < 60
            /\ three => c.v >= 0 /\ c.v < 60
            /\ (two /\ ~three) => a.v < 60
      hms == IF three THEN <<a.v, b.v, c.v>>
             ELSE IF two THEN <<0, a.v, b.v>>
             ELSE <<a.v \div 3600, (a.v \div 60) % 60, a.v % 60>>
      e1 == IF three THEN c.n ELSE IF two THEN b.n ELSE a.n
      dot == At(l, e1) = Dot
      f == Number(l, e1 + 1)
      nd == f.n - (e1 + 1)
      okf == dot => nd >= 1 /\ nd <= 3
      ms == IF ~dot THEN 0 ELSE IF nd = 1 THEN f.v * 100 ELSE IF nd = 2 THEN f.v * 10 ELSE f.v
      e2 == IF dot THEN f.n ELSE e1
  IN IF ~ok \/ ~okf \/ (At(l, e2) \notin (WS \union {0})) THEN TFail
     ELSE [ok |-> TRUE, t |-> hms \o <<ms>>, n |-> e2]

RECURSIVE WordEnd(_, _)
WordEnd(l, i) == IF At(l, i) \in (WS \union {0, Colon}) THEN i ELSE WordEnd(l, i + 1)
\* settings: [ok, s]: NAME:VALUE pairs separated by white space
RECURSIVE Settings(_, _, _)
Settings(l, i0, acc) ==
  LET i == SkipWs(l, i0)
      j == WordEnd(l, i)
      k == WordEnd(l, j + 1)
  IN IF i > Len(l) THEN [ok |-> TRUE, s |-> acc]
     ELSE IF At(l, j) # Colon \/ j = i \/ k = j + 1 \/ At(l, k) = Colon THEN [ok |-> FALSE, s |-> <<>>]
     ELSE Settings(l, k, Append(acc, <<SubSeq(l, i, j - 1), SubSeq(l, j + 1, k - 1)>>))

\* index of the first "-->" in l, 0 if none
Arrow(l) == LET A == {i \in 1..Len(l)-2 : l[i] = 45 /\ l[i + 1] = 45 /\ l[i + 2] = 62}
            IN IF A = {} THEN 0 ELSE MinOf(A)

TimingsLine(l) ==
  LET a == Arrow(l)
      left == SubSeq(l, 1, a - 1)
      right == SubSeq(l, a + 3, Len(l))
      t1 == TimeSpec(left, 1)
      t2 == TimeSpec(right, 1)
      s == Settings(right, t2.n, <<>>)
      clean == SkipWs(left, t1.n) > Len(left)
  IN IF a > 1 /\ t1.ok /\ clean /\ t2.ok /\ s.ok
     THEN [ok |-> TRUE, a |-> t1.t, b |-> t2.t, s |-> s.s]
     ELSE [ok |-> FALSE, a |-> t1.t, b |-> t2.t, s |-> <<>>]

RECURSIVE NonBlank(_, _, _)
NonBlank(d, e, p) == LET g == GetLine(d, e, p) IN IF g.st # 0 \/ g.ln # <<>> THEN g ELSE NonBlank(d, e, g.p)
RECURSIVE PayloadLines(_, _, _, _)
PayloadLines(d, e, p, acc) ==
  LET g == GetLine(d, e, p)
  IN IF g.st = -1 THEN [st |-> -1, pay |-> <<>>, p |-> g.p]
     ELSE IF g.ln = <<>> THEN [st |-> IF acc = <<>> THEN -1 ELSE 0, pay |-> acc, p |-> g.p]
     ELSE PayloadLines(d, e, g.p, Append(acc, g.ln))

\* One Parse call at position p: [r, id, a, b, set, pay, p]
ParseCue(d, e, p) ==
  LET g1 == NonBlank(d, e, p)
      hasId == g1.st = 0 /\ Arrow(g1.ln) = 0
      g2 == IF hasId THEN GetLine(d, e, g1.p) ELSE g1
      ok2 == g2.st = 0 /\ Arrow(g2.ln) # 0
      tl == TimingsLine(g2.ln)
      pl == PayloadLines(d, e, g2.p, <<>>)
      Fail == [r |-> -1, p |-> p]
  IN IF g1.st # 0 THEN [r |-> g1.st, p |-> g1.p]
     ELSE IF ~ok2 THEN Fail
     ELSE IF ~tl.ok THEN Fail
     ELSE IF pl.st # 0 THEN Fail
     ELSE [r |-> 0, id |-> IF hasId THEN g1.ln ELSE <<>>, a |-> tl.a, b |-> tl.b, set |-> tl.s,
           pay |-> pl.pay, p |-> pl.p]
=============================================================================
