------------------------------ MODULE PesTrace ------------------------------
(* Trace validation of the PES writer, the PES parser and the TS packetizer.
   kinds: "pes"  frames written one by one, whole stream parsed back
          "w2p"  a WebM file converted to a PES file, parsed back
          "w2t"  a WebM file converted to a transport stream
          "conv" conversions of arbitrary inputs, with limited output and refusing sinks
          "raw"  a stream of any origin, parsed until the parser refuses
          "sf"   superframe index decoding *)
EXTENDS Pes, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, exp, pos, cc, err
vars == <<tid, k, exp, pos, cc, err>>
Tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ k = 0 /\ exp = <<>> /\ pos = 1 /\ cc = 0 /\ err = ""

PartFrames(f) == LET ps == Parts(f.c, f.b) IN
  [i \in 1..Len(ps) |-> [ms |-> f.ms, rem |-> f.rem, b |-> SubSeq(f.b, ps[i][1] + 1, ps[i][1] + ps[i][2])]]
\* the decoded frames fs must be the expected ones
Match(fs, ex) ==
  IF \E i \in 1..Len(fs) : fs[i].bad # "" THEN fs[CHOOSE i \in 1..Len(fs) : fs[i].bad # ""].bad
  ELSE IF Len(fs) # Len(ex) THEN "number of packets/frames"
  ELSE IF \E i \in 1..Len(fs) : fs[i].b # ex[i].b THEN "payload bytes"
  ELSE IF \E i \in 1..Len(fs) : fs[i].len # Be4(Len(ex[i].b) + 10) THEN "BCMV length"
  ELSE IF \E i \in 1..Len(fs) : ~TickOk(fs[i].pts, ex[i].ms, ex[i].rem) THEN "PTS written"
  ELSE ""
\* what the PES parser returned must be the expected frames
MatchParsed(p, ex) ==
  IF Len(p) # Len(ex) THEN "number of frames parsed"
  ELSE IF \E i \in 1..Len(p) : p[i].b # ex[i].b THEN "bytes parsed"
  ELSE IF \E i \in 1..Len(p) : ~TickOk(p[i].pts, ex[i].ms, ex[i].rem) THEN "PTS parsed"
  ELSE IF \E i \in 1..Len(p) : ~TickOk(p[i].pts, p[i].ms, p[i].rem) THEN "PTS nanoseconds"
  ELSE ""
BigPayload(s) == \E i \in 1..Len(Decode(s)) : LET d == Decode(s)[i] IN d.bad = "" /\ Len(d.b) > MaxPay

WriteStep ==   \* kind pes: one WritePesPacket call
  /\ Tr.kind = "pes" /\ k < Len(Tr.fr)
  /\ LET f == Tr.fr[k + 1]  w == Tr.w[k + 1]
         ex == PartFrames(f)
     IN IF w.ok = 0
        THEN /\ exp' = exp
             /\ err' = IF Refused(f.c, f.b) THEN "" ELSE "frame refused"
        ELSE /\ exp' = IF Refused(f.c, f.b) THEN exp ELSE exp \o ex
             /\ err' = IF Refused(f.c, f.b) THEN "invalid frame accepted"
                       ELSE IF Match(Frames(w.out), ex) # "" THEN Match(Frames(w.out), ex)
                       ELSE IF BigPayload(w.out) THEN "packet payload too large" ELSE ""
  /\ UNCHANGED <<pos, cc>>
ParseStep ==   \* the whole stream parsed back
  /\ Tr.kind = "pes" /\ k = Len(Tr.fr)
  /\ err' = IF exp # <<>> /\ Tr.open # 1 THEN "open" ELSE MatchParsed(Tr.p, exp)
  /\ UNCHANGED <<exp, pos, cc>>
ConvStep ==
  /\ Tr.kind = "w2p" /\ k = 0
  /\ LET ex == FoldLeft(LAMBDA a, f : a \o PartFrames(f), <<>>, Tr.fr)
         m == IF Tr.ok # 1 THEN "conversion failed"
              ELSE IF Tr.fr = <<>> THEN ""
              ELSE Match(Frames(Tr.out), ex)
     IN /\ exp' = ex
        /\ err' = IF m # "" THEN m ELSE IF Tr.bw # Len(Tr.out) THEN "bytes_written" ELSE MatchParsed(Tr.p, ex)
  /\ UNCHANGED <<pos, cc>>
\* kind w2t: one frame's worth of TS packets per step
NPackets == Len(Tr.pk)
TsStep ==
  /\ Tr.kind = "w2t" /\ k < Len(Tr.fr)
  /\ LET starts == {i \in pos + 1 .. NPackets : TsDecode(Tr.pk[i]).start}
         last == IF starts = {} THEN NPackets ELSE MinOf(starts) - 1
         unit == FoldLeft(LAMBDA a, i : a \o TsDecode(Tr.pk[i]).pay, <<>>, [i \in 1..(last - pos + 1) |-> pos + i - 1])
         ex == PartFrames(Tr.fr[k + 1])
     IN /\ err' = IF Tr.ok # 1 THEN "conversion failed"
                  ELSE IF pos > NPackets THEN "missing packets"
                  ELSE IF \E i \in pos..last : Len(Tr.pk[i]) # 188 THEN "packet size"
                  ELSE IF \E i \in pos..last : ~TsDecode(Tr.pk[i]).ok THEN "malformed TS packet"
                  ELSE IF ~TsDecode(Tr.pk[pos]).start THEN "no payload start flag"
                  ELSE IF \E i \in pos..last : TsDecode(Tr.pk[i]).cc # (cc + i - pos) % 16 THEN "continuity counter"
                  ELSE Match(Frames(unit), ex)
        /\ pos' = last + 1 /\ cc' = (cc + last - pos + 1) % 16
  /\ UNCHANGED exp
TsEnd ==
  /\ Tr.kind = "w2t" /\ k = Len(Tr.fr)
  /\ err' = IF pos # NPackets + 1 \/ Tr.tail # 0 THEN "extra TS data" ELSE ""
  /\ UNCHANGED <<exp, pos, cc>>
\* --- kind conv: what can be converted, and what must be reported
\* dmg: 1 if a block is damaged after the frames fr; the frames before it may have been sent
\* tracks: <<[type, codec]>> in file order, codec 8, 9 or 0; fr: frames of the first video track
Videos == {i \in 1..Len(Tr.tracks) : Tr.tracks[i].type = 1}
Convertible ==
  /\ Tr.webm = 1                               \* the input exists and is a WebM file
  /\ Videos # {}
  /\ Tr.tracks[MinOf(Videos)].codec \in {8, 9}
Good(f) == ~Refused(f.c, f.b)
NGood == LET bad == {i \in 1..Len(Tr.fr) : ~Good(Tr.fr[i])} IN IF bad = {} THEN Len(Tr.fr) ELSE MinOf(bad) - 1
AllGood == Tr.dmg = 0 /\ NGood = Len(Tr.fr)
LimBad(l) ==
  \/ l.ok # (IF Convertible /\ AllGood /\ Tr.outok = 1 /\ l.n >= Tr.size THEN 1 ELSE 0)
  \/ l.prefix # 1
  \/ l.size > l.n
  \/ l.ok = 1 /\ l.size # Tr.size
SinkBad(s) ==
  IF ~Convertible THEN s.ok # 0 \/ s.got # 0
  ELSE IF Tr.dmg = 1 THEN s.ok # 0 \/ s.got > (IF s.k \in 1..NGood THEN s.k ELSE NGood)
  ELSE \/ s.got # (IF s.k \in 1..NGood THEN s.k ELSE NGood)
       \/ s.ok # (IF AllGood /\ s.k \notin 1..NGood THEN 1 ELSE 0)
FailStep ==
  /\ Tr.kind = "conv" /\ k = 0
  /\ err' = IF Tr.ok # (IF Convertible /\ AllGood /\ Tr.outok = 1 THEN 1 ELSE 0) THEN (IF Tr.ok = 1 THEN "failure not reported" ELSE "conversion refused")
            ELSE IF \E i \in 1..Len(Tr.lim) : LimBad(Tr.lim[i]) THEN "limited output"
            ELSE IF \E i \in 1..Len(Tr.sink) : SinkBad(Tr.sink[i]) THEN "refusing sink"
            ELSE ""
  /\ UNCHANGED <<exp, pos, cc>>
RawStep ==   \* one call of the parser; the last one fails
  /\ Tr.kind = "raw" /\ k <= Len(Tr.p)
  /\ LET r == ParseNext(Tr.s, pos) IN
       IF k = Len(Tr.p)
       THEN /\ err' = IF r.st = "ok" THEN (IF Tr.open = 1 THEN "frame not returned" ELSE "stream not opened") ELSE ""
            /\ UNCHANGED pos
       ELSE LET f == Tr.p[k + 1] IN
            /\ err' = IF r.st = "no" THEN "frame invented"
                      ELSE IF f.b # r.b THEN "payload parsed"
                      ELSE IF r.pts # <<>> /\ f.pts # r.pts THEN "PTS parsed"
                      ELSE IF r.pts # <<>> /\ ~TickOk(f.pts, f.ms, f.rem) THEN "PTS nanoseconds" ELSE ""
            /\ pos' = r.next
  /\ UNCHANGED <<exp, cc>>
SfStep ==
  /\ Tr.kind = "sf" /\ k = 0
  /\ LET s == Super(Tr.b) IN
     err' = IF ~s.idx THEN (IF Tr.ok = 0 /\ Tr.err = 0 /\ Tr.r = <<>> THEN "" ELSE "superframe: index invented")
            ELSE IF s.err THEN (IF Tr.err = 1 /\ Tr.ok = 0 THEN "" ELSE "superframe: malformed index accepted")
            ELSE IF Tr.ok = 1 /\ Tr.err = 0 /\ Tr.r = s.r THEN "" ELSE "superframe: ranges"
  /\ UNCHANGED <<exp, pos, cc>>
Next == /\ err = "" /\ UNCHANGED tid /\ k' = k + 1
        /\ (WriteStep \/ ParseStep \/ ConvStep \/ TsStep \/ TsEnd \/ SfStep \/ FailStep \/ RawStep)
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
