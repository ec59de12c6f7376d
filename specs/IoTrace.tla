------------------------------ MODULE IoTrace ------------------------------
(* Call histories of the readers and the file writer judged against Io.
   kind "stream": webm::Reader implementations; "random": MkvReader; "write": MkvWriter. *)
EXTENDS Io, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, p, open, C, err
vars == <<tid, k, p, open, C, err>>
Tr == Traces[tid]
Init == /\ tid \in 1..Len(Traces) /\ k = 0 /\ p = 0 /\ err = ""
        /\ open = (Traces[tid].kind = "stream" \/ Traces[tid].borrowed = 1)
        /\ C = <<>>
D == Tr.data
e == Tr.ev[k + 1]
Stay == UNCHANGED <<p, open, C>>
Stream ==
  CASE e.op \in {"read", "skip"} ->
         /\ err' = IF ~ReadOk(D, p, e.n, e.st, e.k) THEN e.op \o ": status or count"
                   ELSE IF e.op = "read" /\ e.b # Slice(D, p, e.k) THEN "bytes read"
                   ELSE IF e.pos - p # e.k THEN "position" ELSE ""
         /\ p' = (IF e.k <= Len(D) - p THEN p + e.k ELSE p) /\ UNCHANGED <<open, C>>
    [] e.op = "seek" ->
         LET can == Tr.seekable = 1 /\ e.n >= 0 IN          \* n = -1: a position no file has
         /\ err' = IF can # (e.st = Completed) THEN "seek status"
                   ELSE IF ~can /\ e.st # SeekFailed THEN "seek failure status"
                   ELSE IF e.pos # (IF can THEN e.n ELSE p) THEN "position after seek" ELSE ""
         /\ p' = (IF can THEN e.n ELSE p) /\ UNCHANGED <<open, C>>
    [] e.op = "pos" -> err' = (IF e.pos = p THEN "" ELSE "position") /\ Stay
    [] e.op = "move" ->    \* moved to another reader; the old one is empty
         /\ err' = IF e.pos # p THEN "position lost in a move"
                   ELSE IF e.oldpos # 0 \/ e.oldst # Eof \/ e.oldk # 0 THEN "moved-from reader" ELSE ""
         /\ Stay
Random ==
  CASE e.op = "open" ->
         /\ err' = IF (e.st = 0) = (~open /\ e.exists = 1) THEN "" ELSE "open"
         /\ open' = (open \/ e.exists = 1) /\ UNCHANGED <<p, C>>
    [] e.op = "close" -> err' = "" /\ open' = FALSE /\ UNCHANGED <<p, C>>
    [] e.op = "length" ->
         /\ err' = IF open THEN (IF e.st = 0 /\ e.total = Len(D) /\ e.avail = Len(D) THEN "" ELSE "length")
                   ELSE IF e.st < 0 THEN "" ELSE "length of a closed file"
         /\ Stay
    [] e.op = "read" ->
         /\ err' = IF open /\ RandomOk(D, e.off, e.n)
                   THEN (IF e.st # 0 THEN "read refused" ELSE IF e.n > 0 /\ e.b # Slice(D, e.off, e.n) THEN "bytes read" ELSE "")
                   ELSE IF e.st < 0 THEN "" ELSE "read past the end succeeded"
         /\ Stay
Write ==
  CASE e.op = "open" ->
         /\ err' = IF (e.st = 1) = (~open /\ e.exists = 1) THEN "" ELSE "open"
         /\ LET new == ~open /\ e.exists = 1 IN
            open' = (open \/ new) /\ p' = (IF new THEN 0 ELSE p) /\ C' = (IF new THEN <<>> ELSE C)
    [] e.op = "close" -> err' = "" /\ open' = FALSE /\ UNCHANGED <<p, C>>
    [] e.op = "write" ->
         LET ok == open /\ (e.null = 0 \/ e.n = 0)
             b == IF ok THEN e.b ELSE <<>> IN
         /\ err' = IF ok = (e.st = 0) THEN "" ELSE "write status"
         /\ C' = Written(C, p, b) /\ p' = p + Len(b) /\ UNCHANGED open
    [] e.op = "pos" -> err' = (IF e.pos = (IF open THEN p ELSE 0) THEN "" ELSE "position") /\ Stay
    [] e.op = "goto" ->
         LET ok == open /\ e.n >= 0 IN
         /\ err' = IF ok = (e.st = 0) THEN "" ELSE "reposition status"
         /\ p' = (IF ok THEN e.n ELSE p) /\ UNCHANGED <<open, C>>
    [] e.op = "file" -> err' = (IF e.b = C THEN "" ELSE "file contents") /\ Stay
Next == /\ err = "" /\ k < Len(Tr.ev) /\ k' = k + 1 /\ UNCHANGED tid
        /\ CASE Tr.kind = "stream" -> Stream [] Tr.kind = "random" -> Random [] OTHER -> Write
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> Tr.what \o " " \o Tr.ev[k].op \o ": " \o err]))
          ELSE IF k = Len(Tr.ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
