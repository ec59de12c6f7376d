---------------------------- MODULE CodingTrace ----------------------------
(* What the muxer's primitives wrote and both parsers' primitives read,
   judged against Coding. *)
EXTENDS Coding, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, err
vars == <<tid, k, err>>
Tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ k = 0 /\ err = ""
OkSt == 0
EofSt == -3
BadId == -1025
BadSize == -1026
BadVal == -1030
\* the first complaint of a sequence of <<condition, complaint>>
First(cs) == LET bad == {i \in 1..Len(cs) : ~cs[i][1]} IN IF bad = {} THEN "" ELSE cs[Smallest(bad)][2]

\* both parsers on coded bytes b, as reported in r
CodedErr(b, r) ==
  LET c == Coded(b) IN
  IF c.st = "ok"
  THEN First(<< <<r.mk.ok = 1 /\ r.mk.v = c.v /\ r.mk.len = c.len, "coded number: mkvparser">>,
                <<r.wp.st = OkSt, "coded number: streaming parser refused">>,
                <<r.wp.st = OkSt => r.wp.v = c.v /\ r.wp.len = c.len /\ r.wp.n = c.len, "coded number: streaming parser">>,
                <<r.ws.st = OkSt /\ (r.ws.unk = 1) = c.ones /\ (c.ones \/ r.ws.v = c.v), "element size: streaming parser">> >>)
  ELSE First(<< <<r.mk.ok = 0, "coded number: mkvparser accepted bad bytes">>,
                <<r.wp.st = (IF c.st = "eof" THEN EofSt ELSE BadVal), "coded number: status">>,
                <<r.ws.st = (IF c.st = "eof" THEN EofSt ELSE BadSize), "element size: status">> >>)
IdErr(b, r) ==
  LET c == Ident(b) IN
  IF c.st = "ok" THEN First(<< <<r.mi.ok = 1 /\ r.mi.v = c.v /\ r.mi.len = c.len, "identifier: mkvparser">>,
                               <<r.wi.st = OkSt /\ r.wi.v = c.v /\ r.wi.n = c.len, "identifier: streaming parser">> >>)
  ELSE First(<< <<r.mi.ok = 0, "identifier: mkvparser accepted bad bytes">>,
                <<r.wi.st = (IF c.st = "eof" THEN EofSt ELSE BadId), "identifier: status">> >>)
HeadErr(b, stop, r) ==
  LET i == Ident(b)
      z == Coded(SubSeq(b, i.len + 1, Len(b)))
      fits == stop < 0 \/ (0 < stop /\ i.len < stop /\ i.len + z.len <= stop)
  IN  IF i.st = "ok" /\ z.st = "ok" /\ fits
      THEN IF r.mh.ok = 1 /\ r.mh.pos = i.len + z.len /\ r.mh.id = i.v /\ r.mh.size = z.v THEN "" ELSE "element header: mkvparser"
      ELSE IF r.mh.ok = 0 THEN "" ELSE "element header: mkvparser accepted bad bytes"
LenErr(b, r) ==
  IF b = <<>> THEN ""
  ELSE LET w == Width(b[1]) IN
       IF w = 9 THEN (IF r.ml.r = -1 THEN "" ELSE "coded length of a bad byte")
       ELSE IF r.ml.r = 0 /\ r.ml.len = w THEN "" ELSE "coded length"

\* values of n bytes taken from b
NumErr(b, n, r) ==
  LET cut == n > Len(b)
      d == SubSeq(b, 1, n)
      whole == n \in 1..8 /\ ~cut
      St(size) == IF ~size THEN BadSize ELSE IF n > 0 /\ cut THEN EofSt ELSE OkSt
      minus9 == <<255, 255, 255, 255, 255, 255, 255, 247>>
      boolbad == whole /\ ~(ZeroExt(d) \in {Small(0), Small(1)})
  IN First(<<
     <<IF whole /\ ~Negative(ZeroExt(d)) THEN r.mu.ok = 1 /\ r.mu.v = ZeroExt(d) ELSE r.mu.ok = 0, "unsigned: mkvparser">>,
     <<IF whole THEN r.ms.ok = 1 /\ r.ms.v = SignExt(d) ELSE r.ms.ok = 0, "signed: mkvparser">>,
     <<IF whole /\ n \in {4, 8} /\ Finite(d) THEN r.mf.ok = 1 /\ r.mf.v = AsDouble(d) ELSE r.mf.ok = 0, "float: mkvparser">>,
     <<IF ~cut /\ n >= 0 THEN r.mt.ok = 1 /\ r.mt.b = Append(d, 0) ELSE r.mt.ok = 0 /\ r.mt.null = 1, "string: mkvparser">>,
     <<r.wu.st = St(n \in 0..8), "unsigned: status">>,
     <<r.wu.st = OkSt => r.wu.v = (IF n = 0 THEN Small(9) ELSE ZeroExt(d)), "unsigned: streaming parser">>,
     <<r.wi.st = St(n \in 0..8), "signed: status">>,
     <<r.wi.st = OkSt => r.wi.v = (IF n = 0 THEN minus9 ELSE SignExt(d)), "signed: streaming parser">>,
     <<r.wd.st = St(n \in {0, 8}), "date: status">>,
     <<r.wd.st = OkSt => r.wd.v = (IF n = 0 THEN minus9 ELSE d), "date: streaming parser">>,
     <<IF boolbad THEN r.wb.st = BadVal
       ELSE IF n \in 1..8 /\ cut THEN r.wb.st = (IF \E i \in 1..Len(b) : b[i] # 0 THEN BadVal ELSE EofSt)
       ELSE r.wb.st = St(n \in 0..8), "boolean: status">>,
     <<r.wb.st = OkSt => r.wb.v = (IF n = 0 THEN Small(1) ELSE ZeroExt(d)), "boolean: streaming parser">>,
     <<r.wf.st = St(n \in {0, 4, 8}), "float: status">>,
     <<r.wf.st = OkSt => IF n = 0 THEN r.wf.v = <<192, 34, 0, 0, 0, 0, 0, 0>>
                         ELSE IF IsNan(d) THEN IsNan(r.wf.v) ELSE r.wf.v = AsDouble(d), "float: streaming parser">> >>)

\* one value written in every way
ValErr(e) ==
  LET v == e.v
      wc(c) == IF c.w <= 0 THEN (IF Encodable(v) THEN CodedLen(v) ELSE 0) ELSE IF c.w <= 8 /\ Fits(v, c.w) THEN c.w ELSE 0
      cErr(c) == IF wc(c) = 0 THEN (IF c.ok = 0 /\ c.b = <<>> THEN "" ELSE "number that does not fit was written")
                 ELSE IF c.ok = 0 THEN "coded number refused"
                 ELSE IF c.b # Enc(v, wc(c)) THEN "coded number written wrongly"
                 ELSE CodedErr(c.b, c)
      sErr(s) == IF s.n \notin 1..8 THEN (IF s.ok = 0 /\ s.b = <<>> THEN "" ELSE "integer of impossible size")
                 ELSE IF s.ok = 0 THEN "integer refused"
                 ELSE IF s.b # Low(v, s.n) THEN "integer written wrongly"
                 ELSE NumErr(s.b, s.n, s)
      errs == {cErr(e.c[i]) : i \in 1..Len(e.c)} \cup {sErr(e.s[i]) : i \in 1..Len(e.s)}
  IN  IF Encodable(v) /\ e.cs # CodedLen(v) THEN "coded size"
      ELSE IF e.us # UIntLen(v) THEN "unsigned size"
      ELSE IF e.is # IntLen(v) THEN "signed size"
      ELSE IF errs = {""} THEN "" ELSE CHOOSE x \in errs : x # ""

\* elements: predicted size, bytes, and the header both sides agree on
ElemErr(e, ok, bytes, total) ==
  IF ~ok THEN (IF e.ok = 0 THEN "" ELSE "element that does not fit was written")
  ELSE IF e.ok = 0 THEN "element refused"
  ELSE IF e.b # bytes THEN "element written wrongly"
  ELSE IF e.pred # total THEN "predicted element size"
  ELSE IF e.note # 1 THEN "element start notification"
  ELSE HeadErr(e.b, -1, e)
EvErr(e) ==
  CASE e.op = "VAL" -> ValErr(e)
    [] e.op = "ELU" -> LET n == IF e.n = 0 THEN UIntLen(e.v) ELSE e.n
                           ok == n <= 8 /\ UIntLen(e.v) <= n
                           b == IF ok THEN UIntElem(e.id, e.v, n) ELSE <<>>
                       IN  IF e.same # 1 THEN "default size" ELSE ElemErr(e, ok, b, Len(b))
    [] e.op = "ELI" -> LET b == UIntElem(e.id, e.v, IntLen(e.v)) IN ElemErr(e, TRUE, b, Len(b))
    [] e.op = "ELD" -> LET b == UIntElem(e.id, e.v, 8) IN ElemErr(e, TRUE, b, Len(b))
    [] e.op = "ELF" -> LET b == UIntElem(e.id, e.v, 4) IN ElemErr(e, TRUE, b, Len(b))
    [] e.op = "ELM" -> LET ok == Encodable(e.v)
                           b == IF ok THEN Header(e.id, e.v) ELSE <<>>
                       IN  ElemErr(e, ok, b, Len(b))
    [] e.op \in {"ELS", "ELB"} ->
         LET ok == e.op = "ELS" \/ e.n > 0
             b == IF ok THEN Header(e.id, Small(e.n)) ELSE <<>>
         IN  IF ok /\ e.ok = 1 /\ (e.same # 1 \/ e.total # Len(b) + e.n) THEN "payload"
             ELSE ElemErr(e, ok, b, Len(b) + e.n)
    [] e.op = "VOID" -> IF e.n < 2 THEN (IF e.ret = 0 THEN "" ELSE "impossible void")
                        ELSE IF e.ret = e.n /\ IsVoid(e.b, e.n) THEN "" ELSE "void element"
    [] e.op = "DEC" -> First(<< <<CodedErr(e.b, e) = "", CodedErr(e.b, e)>>, <<IdErr(e.b, e) = "", IdErr(e.b, e)>>,
                                <<HeadErr(e.b, e.stop, e) = "", HeadErr(e.b, e.stop, e)>>, <<LenErr(e.b, e) = "", LenErr(e.b, e)>> >>)
    [] e.op = "NUM" -> NumErr(e.b, e.n, e)
Next == /\ err = "" /\ k < Len(Tr.ev) /\ k' = k + 1 /\ UNCHANGED tid
        /\ err' = EvErr(Tr.ev[k + 1])
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> Tr.ev[k].op \o " " \o err]))
          ELSE IF k = Len(Tr.ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
