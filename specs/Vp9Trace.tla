---------------------------- MODULE Vp9Trace ----------------------------
(* Frame headers given to one parser object after another, judged by Vp9, and
   statistics collected from them, judged by Vp9Level.
   ev: new | hdr (b, ok, g) | frame (f: what the parser reported, t, sz) | set (dur, est, grace) | get (s) *)
EXTENDS Vp9, Json, IOUtils, TLC
LV == INSTANCE Vp9Level
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, slots, cur, hist, opt, err
vars == <<tid, k, slots, cur, hist, opt, err>>
Tr == Traces[tid]
NoSlots == [i \in 1..8 |-> <<0, 0>>]
Unknown == [w |-> -1, h |-> -1, dw |-> -1, dh |-> -1, depth |-> -1, fpm |-> -1, cols |-> -1, rows |-> -1]
Fresh == [w |-> 0, h |-> 0, dw |-> 0, dh |-> 0, depth |-> 0, fpm |-> 0, cols |-> 0, rows |-> 0]
Opt0 == [dur |-> <<-1, 0>>, est |-> TRUE, grace |-> 15]
Init == tid \in 1..Len(Traces) /\ k = 0 /\ slots = NoSlots /\ cur = Fresh /\ hist = <<>> /\ opt = Opt0 /\ err = ""
Ev == Tr.ev[k + 1]
\* the value a parser that accepted d must report: coded now, or carried over
Now(d, f) == IF d[f] # -1 THEN d[f] ELSE IF d.v = "noref" /\ f # "depth" THEN -1 ELSE cur[f]
Carried == {"w", "h", "dw", "dh", "depth", "fpm", "cols", "rows"}
HdrErr(d) ==
  LET g == Ev.g IN
  IF d.v = "bad" THEN (IF Ev.ok = 0 THEN "" ELSE "malformed header accepted")
  ELSE IF Ev.ok = 0 THEN (IF d.v \in {"odd", "noref"} THEN "" ELSE "header refused")
  ELSE IF g.size # Len(Ev.b) THEN "frame size"
  ELSE IF g.prof # d.prof THEN "profile"
  ELSE IF g.key # d.key \/ g.alt # d.alt THEN "frame type or show flag"
  ELSE IF g.er # d.er THEN "error resilience"
  ELSE IF g.refresh # d.refresh THEN "refresh flags"
  ELSE IF d.cs # -1 /\ g.cs # d.cs THEN "colour space"
  ELSE IF \E f \in Carried : Now(d, f) # -1 /\ g[f] # Now(d, f)
       THEN CHOOSE f \in Carried : Now(d, f) # -1 /\ g[f] # Now(d, f)
  ELSE ""
Hdr == /\ Ev.op = "hdr"
       /\ LET d == Decode(Ev.b, slots) IN
          /\ err' = HdrErr(d)
          /\ IF Ev.ok = 0 THEN cur' = Unknown /\ slots' = slots
             ELSE IF d.v = "bad" THEN UNCHANGED <<cur, slots>>
             ELSE /\ cur' = [f \in Carried |-> Now(d, f)]
                  /\ slots' = [i \in 1..8 |-> IF i \in d.set THEN (IF Now(d, "w") = -1 THEN <<0, 0>> ELSE <<Now(d, "w"), Now(d, "h")>>) ELSE slots[i]]
       /\ UNCHANGED <<hist, opt>>
New == Ev.op = "new" /\ slots' = NoSlots /\ cur' = Fresh /\ hist' = <<>> /\ opt' = Opt0 /\ err' = ""
Frame == /\ Ev.op = "frame" /\ hist' = Append(hist, [t |-> Ev.t, sz |-> Ev.sz, w |-> Ev.f.w, h |-> Ev.f.h, alt |-> Ev.f.alt, key |-> Ev.f.key,
                                                     depth |-> Ev.f.depth, refresh |-> Ev.f.refresh, cols |-> Ev.f.cols])
         /\ err' = "" /\ UNCHANGED <<slots, cur, opt>>
Set == /\ Ev.op = "set" /\ opt' = [dur |-> Ev.dur, est |-> Ev.est = 1, grace |-> Ev.grace] /\ err' = "" /\ UNCHANGED <<slots, cur, hist>>
\* obs: a reported real number scaled by 10^8 (<<-1>> if not finite); num/den: what it must be
Close(obs, num, den) ==
  IF den = <<>> THEN TRUE ELSE IF obs = <<-1>> THEN FALSE
  ELSE LET a == LV!Mul(obs, den) b == LV!Mul(num, <<0, 0, 1>>) IN
       LV!Near(a, b) \/ (LV!Le(a, LV!Add(b, LV!Mul(den, <<2>>))) /\ LV!Le(b, LV!Add(a, LV!Mul(den, <<2>>))))
Get == /\ Ev.op = "get"
       /\ LET s == LV!Stats(hist, opt.dur, opt.est)
              o == Ev.s
          IN err' = IF o.rate # s.rate THEN "luma sample rate"
                    ELSE IF o.size # s.size THEN "luma picture size"
                    ELSE IF o.breadth # s.breadth THEN "luma picture breadth"
                    ELSE IF ~Close(o.kbps, s.kbps.num, s.kbps.den) THEN "average bitrate"
                    ELSE IF ~Close(o.peak, s.peak, <<125>>) THEN "peak buffer size"
                    ELSE IF ~Close(o.ratio, s.raw, LV!Mul(s.comp, <<8>>)) THEN "compression ratio"
                    ELSE IF o.cols # s.cols THEN "tile columns"
                    ELSE IF o.alt # s.alt THEN "altref distance"
                    ELSE IF o.refs # s.refs THEN "reference frames"
                    ELSE IF s.kbps.den # <<>> /\ o.level \notin {LV!Smallest(s, opt.grace, TRUE), LV!Smallest(s, opt.grace, FALSE)} THEN "level"
                    ELSE ""
       /\ UNCHANGED <<slots, cur, hist, opt>>
Next == /\ err = "" /\ k < Len(Tr.ev) /\ k' = k + 1 /\ UNCHANGED tid /\ (New \/ Hdr \/ Frame \/ Set \/ Get)
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> Tr.ev[k].op \o " " \o err]))
          ELSE IF k = Len(Tr.ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
