----------------------------- MODULE WebmTrace -----------------------------
(* A recorded run of the streaming parser: every callback and every return of  *)
(* Feed must be the one the specification owes, whatever the interruptions.    *)
EXTENDS Webm, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, s
vars == <<tid, k, s>>
T == Traces[tid]
D == T.doc
Ev == T.ev

Init == tid \in DOMAIN Traces /\ k = 1 /\ s = Start(T.at, T.at # 0)

Reject(why) == PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> why])) /\ FALSE
Need(c, why) == IF c THEN TRUE ELSE Reject(why)
HasVal == {"clb", "clbe", "done", "blb", "ble"}
HasRem == {"void", "unk", "fr"}

\* What differs, for the report.
Brief(e) == [f \in DOMAIN e \cap {"c", "m", "fm", "rem", "st"} |-> e[f]]
DiffOf(e, d) == IF "v" \in DOMAIN e /\ "v" \in DOMAIN d /\ e.c = d.c
                THEN [got |-> [f \in {x \in DOMAIN e.v : x \in DOMAIN d.v /\ e.v[x] # d.v[x]} |-> e.v[f]],
                      want |-> [f \in {x \in DOMAIN e.v : x \in DOMAIN d.v /\ e.v[x] # d.v[x]} |-> d.v[f]]]
                ELSE <<>>
Matches(e, d) == /\ e.c = d.c
                 /\ e.m = d.m
                 /\ s.ph \in HasVal => e.v = d.v
                 /\ s.ph \in HasRem => e.rem = d.rem
                 /\ s.ph = "fr" => e.fm = d.fm

Callback(e) ==
    /\ Need(s.pend = 0, [unexpected |-> Brief(e), pending |-> s.pend])
    /\ Need(s.ph \in Observable, [unexpected |-> Brief(e), phase |-> s.ph, code |-> s.code])
    /\ LET d == Due(s) IN Need(Matches(e, d), [got |-> Brief(e), want |-> Brief(d), diff |-> DiffOf(e, d)])
    /\ s.ph \in HasRem =>
          /\ Need(Len(e.d) <= s.rem /\ e.rem1 = (IF s.rem = Inf THEN Inf ELSE s.rem - Len(e.d)), [bytes |-> e])
          /\ Need(s.p + Len(e.d) <= Len(D) /\ e.d = Slice(D, s.p, Len(e.d)), [wrongbytes |-> Brief(e)])
    /\ s' = Answer(s, e.a = 1, e.r, IF s.ph \in HasRem THEN Len(e.d) ELSE 0)

\* Feed returns.
Return(e) ==
    LET c == e.st IN
    IF s.pend # 0
    THEN /\ Need(c = s.pend, [returned |-> c, asked |-> s.pend])
         /\ s' = [s EXCEPT !.pend = 0, !.told = ParseError(c), !.ph = IF ParseError(c) THEN "err" ELSE @, !.code = IF ParseError(c) THEN c ELSE @]
    ELSE IF c = WouldBlock /\ ~s.told /\ e.blk > 0 THEN s' = s
    ELSE IF s.ph = "badlace"
    THEN /\ Need(c \in {BadValue, Eof}, [returned |-> c, lacing |-> "does not fit"])
         /\ s' = IF c = BadValue THEN [s EXCEPT !.ph = "err", !.code = c, !.told = TRUE] ELSE s
    ELSE /\ Need(s.ph \in Stopped, [returned |-> c, due |-> IF s.ph \in Observable THEN Brief(Due(s)) ELSE s.ph])
         /\ Need(c = (CASE s.ph = "err" -> s.code [] s.ph = "eof" -> Eof [] OTHER -> Ok),
                 [returned |-> c, want |-> s.ph, code |-> s.code])
         /\ s' = [s EXCEPT !.told = s.ph \in {"err", "fin"}]

Observe ==
    /\ s.ph \in Observable \cup Stopped \cup {"badlace"} \/ s.pend # 0
    /\ k <= Len(Ev)
    /\ LET e == Ev[k] IN
       CASE e.c = "ret" -> Return(e)
         [] e.c = "seek" -> s' = Start(e.p, TRUE)
         [] e.c = "bad" -> Need(FALSE, [reader |-> e.what]) /\ s' = s
         [] OTHER -> Callback(e)
    /\ k' = k + 1
    /\ IF k = Len(Ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
    /\ UNCHANGED tid
\* A seek or a block may come at any moment, so only the return itself fixes how far we are;
\* silent steps are taken eagerly because they lead to the only observation that can follow.
Quiet ==
    /\ s.ph \notin Observable \cup Stopped \cup {"badlace"}
    /\ s.pend = 0
    /\ k <= Len(Ev)
    /\ s' = Silent(D, s)
    /\ UNCHANGED <<tid, k>>
Next == Quiet \/ Observe
Spec == Init /\ [][Next]_vars
=============================================================================
