--------------------------------- MODULE Io ---------------------------------
(* The sources and sinks of the library as machines over byte sequences.
   A streaming reader has data and a position; a random-access reader has data;
   a writer has contents and a position.  Results are described by predicates
   over what was returned, so that short reads and skips remain allowed where
   the contract allows them. *)
EXTENDS Integers, Sequences
Completed == 0
Partial == -1
Eof == -3
SeekFailed == -4
Least(a, b) == IF a <= b THEN a ELSE b

\* n bytes asked for at position p of D, k delivered with status st.
ReadOk(D, p, n, st, k) ==
  /\ k >= 0 /\ k <= n /\ k <= Len(D) - p
  /\ (st = Completed) = (k = n)
  /\ (st = Partial) = (k > 0 /\ k < n)
  /\ k = 0 => st = Eof
  /\ k = 0 => p = Len(D)                      \* no end of data before the end
Slice(D, p, k) == SubSeq(D, p + 1, p + k)

\* Random access: a read succeeds exactly if all its bytes exist.
RandomOk(D, off, n) == off >= 0 /\ n >= 0 /\ (n = 0 \/ off + n <= Len(D))

\* Writing b at p: overwrites, extends, and fills a gap with zeros.
Written(C, p, b) ==
  IF b = <<>> THEN C
  ELSE [i \in 1..(IF p + Len(b) > Len(C) THEN p + Len(b) ELSE Len(C)) |->
         IF i > p /\ i <= p + Len(b) THEN b[i - p] ELSE IF i <= Len(C) THEN C[i] ELSE 0]
=============================================================================
