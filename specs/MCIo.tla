-------------------------------- MODULE MCIo --------------------------------
(* Every short history of a streaming reader and of a writer over tiny data. *)
EXTENDS Io, Json, TLC
CONSTANTS MaxLen, Depth, Sizes
VARIABLES mode, D, p, got, ok, hist
vars == <<mode, D, p, got, ok, hist>>
Init == /\ mode \in {"stream", "write"} /\ p = 0 /\ got = <<>> /\ ok = TRUE /\ hist = <<>>
        /\ \E n \in 0..MaxLen : D = (IF mode = "stream" THEN [i \in 1..n |-> i] ELSE <<>>)
Do(h) == hist' = Append(hist, h)
Next == /\ Len(hist) < Depth /\ UNCHANGED mode
        /\ \/ /\ mode = "stream" /\ UNCHANGED D
              /\ \E n \in Sizes, op \in {"read", "skip"} :
                 \E st \in {Completed, Partial, Eof}, m \in 0..n :
                   /\ ReadOk(D, p, n, st, m)
                   /\ got' = (IF op = "read" THEN Append(got, <<p, Slice(D, p, m)>>) ELSE got)
                   /\ p' = p + m /\ Do(<<op, n>>)
                   /\ ok' = (ok /\ (st = Completed => m = n) /\ (st = Eof <=> p = Len(D)))
           \/ /\ mode = "write"
              /\ \/ \E n \in Sizes :
                    LET b == [i \in 1..n |-> 10 * Len(hist) + i] IN
                    /\ D' = Written(D, p, b) /\ p' = p + n /\ Do(<<"write", n>>)
                    /\ ok' = (ok /\ Slice(D', p, n) = b /\ (\A i \in 1..Len(D) : i <= p \/ i > p + n => D'[i] = D[i]))
                 \/ \E q \in 0..(MaxLen + 1) : p' = q /\ D' = D /\ Do(<<"goto", q>>) /\ UNCHANGED ok
              /\ UNCHANGED got
Lawful == ok /\ p <= Len(D) + MaxLen + 1
\* what was read is what is stored there, and never twice
Delivered == \A i \in 1..Len(got) : got[i][2] = Slice(D, got[i][1], Len(got[i][2]))
             /\ (i > 1 => got[i][1] >= got[i - 1][1] + Len(got[i - 1][2]))
Hist == IF Len(hist) = Depth THEN PrintT("H " \o ToJson([mode |-> mode, n |-> Len(D), h |-> hist])) ELSE TRUE
View == <<mode, D, p, got, ok, hist>>
Spec == Init /\ [][Next]_vars
=============================================================================
