---------------------------- MODULE HdrTrace ----------------------------
(* Codec private lists decoded and colours copied by the code, judged by Hdr. *)
EXTENDS Hdr, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, err
vars == <<tid, k, err>>
Tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ k = 0 /\ err = ""
EvErr(e) ==
  CASE e.op = "priv" ->
         IF WellFormed(e.b) THEN (IF e.ok = 0 THEN "feature list refused" ELSE IF e.f # Features(e.b) THEN "features" ELSE "")
         ELSE IF e.ok = 1 THEN "malformed feature list accepted" ELSE ""
    [] e.op = "null" -> IF e.ok = 1 THEN "nothing to decode accepted" ELSE ""
    [] e.op = "colour" -> IF e.ok = 0 THEN "colour not copied" ELSE IF e.got # Copied(e.want) THEN "colour differs" ELSE ""
    [] e.op = "mm" -> IF e.ok = 0 THEN "mastering metadata not copied" ELSE IF e.got # Copied(e.want) THEN "mastering metadata differs" ELSE ""
Next == /\ err = "" /\ k < Len(Tr.ev) /\ k' = k + 1 /\ UNCHANGED tid /\ err' = EvErr(Tr.ev[k + 1])
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> Tr.ev[k].op \o " " \o err]))
          ELSE IF k = Len(Tr.ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
