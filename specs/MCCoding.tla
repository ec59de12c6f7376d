------------------------------ MODULE MCCoding ------------------------------
(* All values of the form 2^k + d and all values over a set of telling bytes. *)
EXTENDS Coding, Json, TLC
CONSTANT Bytes
Inc(v) == LET p == {i \in 1..8 : v[i] # 255} IN
          IF p = {} THEN Small(0)
          ELSE LET k == CHOOSE i \in p : \A j \in p : j <= i IN
               [i \in 1..8 |-> IF i < k THEN v[i] ELSE IF i = k THEN v[i] + 1 ELSE 0]
Dec(v) == LET p == {i \in 1..8 : v[i] # 0} IN
          IF p = {} THEN [i \in 1..8 |-> 255]
          ELSE LET k == CHOOSE i \in p : \A j \in p : j <= i IN
               [i \in 1..8 |-> IF i < k THEN v[i] ELSE IF i = k THEN v[i] - 1 ELSE 255]
Pow(k) == [i \in 1..8 |-> IF i = 8 - k \div 8 THEN P2(k % 8) ELSE 0]
Near(k) == {Pow(k), Inc(Pow(k)), Inc(Inc(Pow(k))), Dec(Pow(k)), Dec(Dec(Pow(k))), Dec(Dec(Dec(Pow(k))))}
VARIABLES v, step                           \* v is built two bytes at a time, so that the work is shared
Init == v = <<>> /\ step = 0
Next == \/ step = 0 /\ \E k \in 0..63 : \E x \in Near(k) : v' = x /\ step' = 9
        \/ step < 8 /\ \E a, b \in Bytes : v' = Append(Append(v, a), b) /\ step' = step + 2
Whole == Len(v) = 8
Lawful == Whole => Laws(v)
Show == IF step = 9 THEN PrintT("V " \o ToJson(v)) ELSE TRUE
VoidOk == Whole /\ v[1] = 0 /\ v[2] = 0 /\ v[3] = 0 /\ v[4] = 0 /\ v[5] = 0 /\ v[6] = 0 /\ v[7] < 2 =>
  LET n == v[7] * 256 + v[8] IN
  n >= 2 => \E w \in 1..3 : n - 1 - w >= 0 /\ Fits(Small(n - 1 - w), w)
Spec == Init /\ [][Next]_<<v, step>>
=============================================================================
