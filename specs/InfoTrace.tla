----------------------------- MODULE InfoTrace -----------------------------
(* Runs of webm_info: a document, the options given, the lines printed and the exit status.
   dmg: the document was damaged and only the way the run ends is judged. *)
EXTENDS Info, Json, IOUtils
LV == INSTANCE Vp9Level
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, pos, z, stop, err
vars == <<tid, k, pos, z, stop, err>>
Tr == Traces[tid]
Doc == Tr.doc
It == Items(Doc)
o == Opts(Tr.args)
Init == tid \in 1..Len(Traces) /\ k = 0 /\ pos = 0 /\ z = NewVp9 /\ stop = FALSE /\ err = ""
Same(a, b) == b.x = Free \/ (a.x = b.x /\ a.d = b.d)
Close(obs, num, den) ==      \* obs: scaled by 10^8, six digits of num/den
  LET a == LV!Mul(obs, LV!Mul(den, LV!Of(100000)))
      c == LV!Mul(num, <<0, 0, 1>>)
      b == LV!Mul(c, LV!Of(100000))
  IN LV!Le(a, LV!Add(b, c)) /\ LV!Le(b, LV!Add(a, c))
LevelErr ==
  IF "vp9_level" \notin o THEN IF Tr.lvl = <<>> THEN "" ELSE "level printed"
  ELSE IF Tr.lvl = <<>> THEN "no level"
  ELSE IF z.hist = <<>> \/ z.bad THEN ""
  ELSE LET g == Tr.lvl[1]
           dur == IF Doc.info.dur < 0 THEN <<-1, 0>> ELSE Us(Doc.info.dur)
           s == LV!Stats(z.hist, dur, TRUE)
       IN IF g.rate # s.rate THEN "luma sample rate"
          ELSE IF g.size # s.size THEN "luma picture size"
          ELSE IF g.breadth # s.breadth THEN "luma picture breadth"
          ELSE IF g.cols # s.cols THEN "tile columns"
          ELSE IF g.alt # s.alt THEN "altref distance"
          ELSE IF g.refs # s.refs THEN "reference frames"
          ELSE IF s.kbps.den # <<>> /\ s.kbps.num # <<>> /\ ~Close(g.kbps, s.kbps.num, s.kbps.den) THEN "bitrate"
          ELSE IF s.kbps.den # <<>> /\ g.level \notin {LV!Smallest(s, 15, TRUE), LV!Smallest(s, 15, FALSE)} THEN "level" ELSE ""
Printed(n) == SubSeq(Tr.out, pos + 1, IF pos + n > Len(Tr.out) THEN Len(Tr.out) ELSE pos + n)
StepErr(it, r) ==
  IF it.o = "level" THEN LevelErr
  ELSE IF it.o = "stats" /\ z.bad THEN ""
  ELSE LET got == Printed(Len(r.ls))
           bad == {i \in 1..Len(r.ls) : i > Len(got) \/ ~Same(got[i], r.ls[i])}
       IN IF bad = {} THEN ""
          ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
               it.o \o ": expected " \o ToString(r.ls[i]) \o IF i > Len(got) THEN ", no more output" ELSE ", printed " \o ToString(got[i])
Done == k = Len(It) \/ stop
Step == /\ ~Tr.dmg /\ ~Done /\ k' = k + 1 /\ UNCHANGED tid
        /\ LET r == TLCEval(Emit(z, Doc, It[k'], o)) IN
           /\ err' = StepErr(It[k'], r)
           /\ z' = r.z /\ stop' = r.stop
           /\ pos' = IF It[k'].o = "stats" /\ z.bad THEN Len(Tr.out) ELSE pos + Len(r.ls)
Next == err = "" /\ Step
End == IF Tr.dmg THEN ""
       ELSE IF pos # Len(Tr.out) THEN "printed too much: " \o ToString(Tr.out[pos + 1])
       ELSE IF stop # (Tr.rc = 1) THEN "exit status" ELSE ""
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err]))
          ELSE IF Tr.dmg \/ Done
          THEN IF End # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> End])) ELSE PrintT("ACCEPT " \o ToJson([t |-> tid]))
          ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
