-------------------------------- MODULE Hdr --------------------------------
(* The VP9 codec private feature list, and colour metadata carried from a parsed
   track to the muxer. *)
EXTENDS Integers, Sequences, FiniteSets
Absent == 2147483647
Levels == {10, 11, 20, 21, 30, 31, 40, 41, 50, 51, 52, 60, 61, 62}
Ids == 1..4                        \* profile, level, bit depth, chroma subsampling
Valid(id) == CASE id = 1 -> 0..3 [] id = 2 -> Levels [] id = 3 -> {8, 10, 12} [] id = 4 -> 0..3
\* b: bytes; whole entries of three bytes <<id, 1, value>>, at least one
Entries(b) == [i \in 1..(Len(b) \div 3) |-> <<b[3 * i - 2], b[3 * i - 1], b[3 * i]>>]
WellFormed(b) ==
  LET e == Entries(b) IN
  /\ Len(b) > 0 /\ Len(b) % 3 = 0
  /\ \A i \in 1..Len(e) : e[i][1] \in Ids /\ e[i][2] = 1 /\ e[i][3] \in Valid(e[i][1])
  /\ \A i, j \in 1..Len(e) : e[i][1] = e[j][1] => e[i][3] = e[j][3]
Feature(b, id) == LET e == Entries(b)
                      s == {e[i][3] : i \in {k \in 1..Len(e) : e[k][1] = id}}
                  IN  IF s = {} THEN Absent ELSE CHOOSE x \in s : TRUE
Features(b) == <<Feature(b, 1), Feature(b, 2), Feature(b, 3), Feature(b, 4)>>
\* ---- colour: sequences of 13 integers and 2 luminances as text ("none": absent), four
\* chromaticities (<<>>: absent), mm: is there mastering metadata; the copy is the same
Copied(c) == c
=============================================================================
