---------------------------- MODULE WebVttTrace ----------------------------
(* Trace validation: each recorded run of the parser must be the behaviour of WebVtt on the
   recorded text. *)
EXTENDS WebVtt, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, pos, err
vars == <<tid, k, pos, err>>
Init == /\ tid \in 1..Len(Traces) /\ k = 0 /\ pos = 0 /\ err = ""
Ev == Traces[tid].ev
Next ==
  /\ err = "" /\ k < Len(Ev)
  /\ k' = k + 1 /\ UNCHANGED tid
  /\ LET d == Traces[tid].doc
         e == Traces[tid].err
         ev == Ev[k + 1]
     IN IF k = 0
        THEN LET x == InitParse(d, e)
             IN /\ pos' = x.p
                /\ err' = IF x.st = ev.r THEN "" ELSE "Init result"
        ELSE LET x == ParseCue(d, e, pos)
             IN /\ pos' = x.p
                /\ err' = IF x.r # ev.r THEN "Parse result"
                          ELSE IF x.r # 0 THEN ""
                          ELSE IF x.id # ev.id THEN "identifier"
                          ELSE IF x.a # ev.a THEN "start time"
                          ELSE IF x.b # ev.b THEN "stop time"
                          ELSE IF x.set # ev.set THEN "settings"
                          ELSE IF x.pay # ev.pay THEN "payload" ELSE ""
\* a run may stop only after a non-zero result
Complete == (err = "" /\ k = Len(Ev)) => (Ev[k].r # 0)
Report == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err])) ELSE TRUE
Accept == Report
Spec == Init /\ [][Next]_vars
=============================================================================
