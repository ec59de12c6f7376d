------------------------------- MODULE MCHdr -------------------------------
(* A decoder that reads entry by entry and remembers the features seen so far
   accepts exactly the well-formed lists, with their features. *)
EXTENDS Hdr, Json, TLC
CONSTANTS MaxBytes, Vals
VARIABLES b, st, f
vars == <<b, st, f>>
\* st: number of bytes of the current entry read, -1 after an error
Init == b = <<>> /\ st = 0 /\ f = <<Absent, Absent, Absent, Absent>>
Step(x) ==
  /\ b' = Append(b, x)
  /\ IF st = -1 THEN st' = -1 /\ f' = f
     ELSE IF st = 0 THEN f' = f /\ st' = IF x \in Ids THEN 1 ELSE -1
     ELSE IF st = 1 THEN f' = f /\ st' = IF x = 1 THEN 2 ELSE -1
     ELSE LET id == b[Len(b) - 1] IN
          IF x \in Valid(id) /\ f[id] \in {Absent, x} THEN st' = 0 /\ f' = [f EXCEPT ![id] = x] ELSE st' = -1 /\ f' = f
Choice == IF Len(b) % 3 = 0 THEN {0, 1, 2, 3, 4, 5, 129} ELSE IF Len(b) % 3 = 1 THEN {0, 1, 2} ELSE Vals
Next == Len(b) < MaxBytes /\ (st # -1 \/ Len(b) % 3 # 0) /\ \E x \in Choice : Step(x)
Agree == /\ WellFormed(b) <=> (st = 0 /\ Len(b) > 0)
         /\ WellFormed(b) => f = Features(b)
Show == PrintT("P " \o ToJson(b))
Spec == Init /\ [][Next]_vars
=============================================================================
