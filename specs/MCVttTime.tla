----------------------------- MODULE MCVttTime -----------------------------
(* Design check of the time algebra: a clock value stepped by durations from a boundary domain. *)
EXTENDS Integers, Sequences, TLC, Json
(* A number of milliseconds is a pair <<hours, rest>> with rest in 0..3599999 (32-bit
   integers of TLC); hours is negative for negative numbers. *)
HourMs == 3600000
Ms(t) == <<t[1], (t[2] * 60 + t[3]) * 1000 + t[4]>>
OfMs(d) == IF d[1] < 0 THEN <<0, 0, 0, 0>> ELSE <<d[1], d[2] \div 60000, (d[2] \div 1000) % 60, d[2] % 1000>>
Norm2(h, x) == <<h + x \div HourMs, x % HourMs>>     \* x may be negative: \div rounds down
Add(a, b) == Norm2(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm2(a[1] - b[1], a[2] - b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Durs == {<<0, 0>>, <<0, 1>>, <<0, 999>>, <<0, 1000>>, <<0, 59000>>, <<0, 60000>>, <<0, 3599999>>, <<1, 0>>, <<1, 1>>,
         <<-1, 3599999>>, <<-1, 3599001>>, <<-1, 3540000>>, <<-2, 3599999>>, <<597, 0>>, <<-597, 1>>, <<400000000, 59999>>, <<-400000000, 0>>}
VARIABLES t, n
Init == t \in {<<h, m, s, x>> : h \in {0, 1, 99, 596, 1000000}, m \in {0, 59}, s \in {0, 59}, x \in {0, 1, 999}} /\ n = 0
Next == n < 2 /\ n' = n + 1 /\ \E d \in Durs : t' = OfMs(Add(Ms(t), d)) /\ PrintT("OP " \o ToJson([t |-> t, d |-> d, u |-> t']))
Spec == Init /\ [][Next]_<<t, n>>
Norm == t[1] >= 0 /\ t[2] \in 0..59 /\ t[3] \in 0..59 /\ t[4] \in 0..999 /\ OfMs(Ms(t)) = t /\ \A d \in Durs : Add(Sub(Ms(t), d), d) = Ms(t) /\ Sub(Add(Ms(t), d), d) = Ms(t)
=============================================================================
