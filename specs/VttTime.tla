------------------------------ MODULE VttTime ------------------------------
(* WebVTT time values <<h, m, s, ms>> and arithmetic in milliseconds; trace validation of the
   recorded operator results, and a design check over a boundary domain. *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
(* A number of milliseconds is a pair <<hours, rest>> with rest in 0..3599999 (32-bit
   integers of TLC); hours is negative for negative numbers. *)
HourMs == 3600000
Ms(t) == <<t[1], (t[2] * 60 + t[3]) * 1000 + t[4]>>
OfMs(d) == IF d[1] < 0 THEN <<0, 0, 0, 0>> ELSE <<d[1], d[2] \div 60000, (d[2] \div 1000) % 60, d[2] % 1000>>
Norm2(h, x) == <<h + x \div HourMs, x % HourMs>>     \* x may be negative: \div rounds down
Add(a, b) == Norm2(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm2(a[1] - b[1], a[2] - b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
B(b) == IF b THEN 1 ELSE 0
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, err
vars == <<tid, k, err>>
Init == tid \in 1..Len(Traces) /\ k = 0 /\ err = ""
Judge(x) ==
  LET t == x.t u == x.u d == x.d IN
  IF x.pt # Ms(t) \/ x.pu # Ms(u) THEN "presentation"
  ELSE IF x.rt # t THEN "round trip"
  ELSE IF x.lt # B(Less(Ms(t), Ms(u))) \/ x.gt # B(Less(Ms(u), Ms(t))) \/ x.le # B(~Less(Ms(u), Ms(t)))
          \/ x.ge # B(~Less(Ms(t), Ms(u))) \/ x.eq # B(t = u) THEN "comparison"
  ELSE IF x.add # OfMs(Add(Ms(t), d)) \/ x.addeq # OfMs(Add(Ms(t), d)) THEN "addition"
  ELSE IF x.subeq # OfMs(Sub(Ms(t), d)) THEN "subtraction"
  ELSE IF x.diff # Sub(Ms(t), Ms(u)) THEN "difference"
  ELSE ""
Next == k = 0 /\ k' = 1 /\ UNCHANGED tid /\ err' = Judge(Traces[tid])
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
