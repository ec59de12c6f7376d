-------------------------------- MODULE Webm --------------------------------
(* The streaming parser as a state machine over the document's bytes.          *)
(*                                                                             *)
(* A state is a record: p, the next byte; stk, the open elements (innermost    *)
(* last, the document itself first); ph, what has to happen next; cur, the     *)
(* header read last.  Due(s) is the callback the parser owes its user in that  *)
(* phase, Answer(s, e) what follows from the user's answer, and Silent(s) a    *)
(* step that nobody sees.  Nothing here depends on how the input arrives:      *)
(* Feed may give up at any point because the reader blocks, and continues in   *)
(* the same state.                                                             *)
EXTENDS WebmSchema

Inf == 1073741824              \* stands for every size and end beyond 2^30 (and those just below)
Capped(v) == IF v >= Inf - 65536 THEN Inf ELSE v
Unk == -1

\* Status codes.
Ok == 0
WouldBlock == -2
Eof == -3
BadId == -1025
BadSize == -1026
Indefinite == -1027
Overflow == -1028
BadValue == -1030
TooDeep == -1031
ParseError(c) == c >= -2048 /\ c <= -1025

-----------------------------------------------------------------------------
\* Bytes.  D is the document, positions count from 0.
At(D, p) == D[p + 1]
Min(a, b) == IF a < b THEN a ELSE b
Slice(D, p, n) == SubSeq(D, p + 1, p + n)
Width(b) == CASE b >= 128 -> 1 [] b >= 64 -> 2 [] b >= 32 -> 3 [] b >= 16 -> 4 [] b >= 8 -> 5 [] b >= 4 -> 6
              [] b >= 2 -> 7 [] b = 1 -> 8 [] OTHER -> 9
Pow2(n) == 2 ^ n
Sat(v, b) == IF v >= 4194304 THEN Inf ELSE v * 256 + b
RECURSIVE Fold(_, _, _, _)
Fold(D, p, n, v) == IF n = 0 THEN v ELSE Fold(D, p + 1, n - 1, Sat(v, At(D, p)))

\* A coded number at p: [st, len, v, ones] (ones: all value bits set).
VInt(D, p) ==
    IF p >= Len(D) THEN [st |-> Eof, len |-> 0, v |-> 0, ones |-> FALSE]
    ELSE LET w == Width(At(D, p)) IN
         IF w = 9 THEN [st |-> BadValue, len |-> 0, v |-> 0, ones |-> FALSE]
         ELSE IF p + w > Len(D) THEN [st |-> Eof, len |-> w, v |-> 0, ones |-> FALSE]
         ELSE LET top == At(D, p) - Pow2(8 - w) IN
              [st |-> Ok, len |-> w, v |-> Fold(D, p + 1, w - 1, top),
               ones |-> top = Pow2(8 - w) - 1 /\ \A i \in 1..(w - 1) : At(D, p + i) = 255]
\* An element header at p: [st, id, hs, sz].
Header(D, p) ==
    LET bad(c) == [st |-> c, id |-> 0, hs |-> 0, sz |-> 0] IN
    IF p >= Len(D) THEN bad(Eof)
    ELSE LET w == Width(At(D, p)) IN
         IF w > 4 THEN bad(BadId)
         ELSE IF p + w > Len(D) THEN bad(Eof)
         ELSE LET id == IF w = 4 THEN At(D, p) * 16777216 + At(D, p + 1) * 65536 + At(D, p + 2) * 256 + At(D, p + 3)
                        ELSE Fold(D, p, w, 0)
                  z == VInt(D, p + w)
              IN  IF z.st # Ok THEN bad(IF z.st = BadValue THEN BadSize ELSE z.st)
                  ELSE [st |-> Ok, id |-> id, hs |-> w + z.len, sz |-> IF z.ones THEN Unk ELSE Capped(z.v)]

\* Values.
RECURSIVE StripLead(_)
StripLead(b) == IF b # <<>> /\ b[1] = 0 THEN StripLead(Tail(b)) ELSE b
RECURSIVE StripTrail(_)
StripTrail(b) == IF b # <<>> /\ b[Len(b)] = 0 THEN StripTrail(SubSeq(b, 1, Len(b) - 1)) ELSE b
SignExtend(b) == [i \in 1..8 |-> IF i > 8 - Len(b) THEN b[i - (8 - Len(b))] ELSE IF b[1] >= 128 THEN 255 ELSE 0]
RECURSIVE LeadShift(_)
LeadShift(m) == IF m >= 8388608 THEN 0 ELSE 1 + LeadShift(2 * m)
Widen(b) ==                               \* IEEE single -> double, as bytes
    LET s == b[1] \div 128
        e == (b[1] % 128) * 2 + b[2] \div 128
        m == (b[2] % 128) * 65536 + b[3] * 256 + b[4]
        k == LeadShift(m)
        E == IF e = 0 THEN (IF m = 0 THEN 0 ELSE 897 - k) ELSE IF e = 255 THEN 2047 ELSE e + 896
        M == IF e = 0 /\ m # 0 THEN m * Pow2(k) - 8388608 ELSE m
    IN  <<s * 128 + E \div 16, (E % 16) * 16 + M \div 524288, (M \div 2048) % 256, (M \div 8) % 256, (M % 8) * 32, 0, 0, 0>>
Signed16(a, b) == LET v == a * 256 + b IN IF v >= 32768 THEN v - 65536 ELSE v

SizeOk(kind, z) ==
    CASE kind \in {"uint", "int", "bool"} -> z \in 0..8
      [] kind = "float" -> z \in {0, 4, 8}
      [] kind = "date" -> z \in {0, 8}
      [] kind \in {"str", "bin", "void"} -> z # Unk
      [] kind = "id" -> z \in 1..4
      [] kind \in {"block", "sblock"} -> z >= 5
      [] kind = "vblock" -> z >= 4
      [] OTHER -> TRUE
Leaf == {"uint", "int", "bool", "float", "date", "str", "bin", "id"}
Decode(d, b) ==
    IF b = <<>> THEN d.dflt
    ELSE CASE d.kind = "uint" -> StripLead(b)
           [] d.kind = "id" -> StripLead(b)
           [] d.kind \in {"int", "date"} -> SignExtend(b)
           [] d.kind = "bool" -> b[Len(b)] = 1
           [] d.kind = "float" -> IF Len(b) = 8 THEN b ELSE Widen(b)
           [] d.kind = "str" -> StripTrail(b)
           [] OTHER -> b
\* Booleans are refused as soon as a byte shows they cannot be 0 or 1.
BadBool(D, p, z) == LET n == Min(z, Len(D) - p) IN
                    \E i \in 0..(n - 1) : IF i = z - 1 THEN At(D, p + i) > 1 ELSE At(D, p + i) # 0

-----------------------------------------------------------------------------
\* Blocks.  Header: track number, 16-bit time, flags, and the frame count when laced.
BlockHead(D, p, laced) ==
    LET t == VInt(D, p)
        q == p + t.len
        bad(c) == [st |-> c, len |-> 0, val |-> NoBlock, flags |-> 0]
    IN  IF t.st # Ok THEN bad(t.st)
        ELSE IF q + 3 > Len(D) THEN bad(Eof)
        ELSE LET fl == At(D, q + 2)
                 lac == (fl \div 2) % 4                          \* 0 none, 1 Xiph, 2 fixed, 3 EBML
                 more == IF laced /\ lac # 0 THEN 1 ELSE 0
             IN  IF q + 3 + more > Len(D) THEN bad(Eof)
                 ELSE [st |-> Ok, len |-> t.len + 3 + more, flags |-> fl,
                       val |-> [track |-> Capped(t.v), frames |-> IF more = 1 THEN At(D, q + 3) + 1 ELSE 1,
                                tc |-> Signed16(At(D, q), At(D, q + 1)), lacing |-> lac * 2,
                                visible |-> (fl \div 8) % 2 = 0]]
\* Frame sizes.  Result [ok, sizes, at]: at is where the first frame starts; ok is false when the
\* lace header does not fit the block or does not add up.
NoLace == [ok |-> FALSE, sizes |-> <<>>, at |-> 0]
Total(s) == LET f[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE Min(Inf, f[i - 1] + s[i]) IN f[Len(s)]
Close(sizes, q, end) ==       \* the last frame takes what is left, at least one byte
    IF Total(sizes) >= end - q THEN NoLace
    ELSE [ok |-> TRUE, sizes |-> Append(sizes, Capped(end - q - Total(sizes))), at |-> q]
RECURSIVE Xiph(_, _, _, _, _, _)
Xiph(D, q, end, left, sizes, acc) ==
    IF left = 0 THEN Close(sizes, q, end)
    ELSE IF q >= end \/ q >= Len(D) THEN NoLace
    ELSE IF At(D, q) = 255 THEN Xiph(D, q + 1, end, left, sizes, acc + 255)
    ELSE Xiph(D, q + 1, end, left - 1, Append(sizes, acc + At(D, q)), 0)
\* A signed difference: the coded number minus half its range, saturated at both ends.
RECURSIVE FoldC(_, _, _, _)
FoldC(D, p, n, v) == IF n = 0 THEN v ELSE FoldC(D, p + 1, n - 1, Sat(v, 255 - At(D, p)))
Diff(D, q, w) ==
    LET first == IF w = 8 THEN At(D, q + 1) ELSE At(D, q) - Pow2(8 - w)
        half == IF w = 8 THEN 128 ELSE Pow2(7 - w)
        from == IF w = 8 THEN q + 2 ELSE q + 1
        n == IF w = 8 THEN 6 ELSE w - 1
    IN  IF first >= half THEN Fold(D, from, n, first % half) + 1 ELSE -FoldC(D, from, n, half - 1 - first)
RECURSIVE EbmlLace(_, _, _, _, _)
EbmlLace(D, q, end, left, sizes) ==
    IF left = 0 THEN Close(sizes, q, end)
    ELSE LET v == VInt(D, q) IN
         IF v.st # Ok \/ q + v.len > end THEN NoLace
         ELSE LET size == IF sizes = <<>> THEN v.v
                          ELSE sizes[Len(sizes)] + Diff(D, q, v.len)
              IN  IF size < 0 \/ size >= Inf THEN NoLace
                  ELSE EbmlLace(D, q + v.len, end, left - 1, Append(sizes, size))
Laces(D, p, h, end) ==
    LET q == p + h.len
        n == h.val.frames
    IN  IF h.val.lacing = 0 \/ n = 1 THEN Close(<<>>, q, end)
        ELSE CASE h.val.lacing = 2 -> Xiph(D, q, end, n - 1, <<>>, 0)
               [] h.val.lacing = 6 -> EbmlLace(D, q, end, n - 1, <<>>)
               [] OTHER -> IF q < end /\ (end - q) % n = 0
                           THEN [ok |-> TRUE, sizes |-> [i \in 1..n |-> Capped((end - q) \div n)], at |-> q]
                           ELSE NoLace
BlockVal(kind, h) == IF kind = "sblock"
                     THEN [track |-> h.val.track, frames |-> h.val.frames, tc |-> h.val.tc, lacing |-> h.val.lacing,
                           visible |-> h.val.visible, key |-> h.flags \div 128 = 1, discardable |-> h.flags % 2 = 1]
                     ELSE h.val

-----------------------------------------------------------------------------
\* States.
NoHdr == [id |-> 0, hs |-> 0, sz |-> 0, pos |-> 0]
Frame(m, h, cap, skip, started, depth) ==
    [m |-> m, h |-> h, cap |-> cap, skip |-> skip, started |-> started, depth |-> depth,
     val |-> IF m \in Walked \cup {"Doc"} THEN <<>> ELSE Defaults[m], has |-> {}]
NoBlk == [kind |-> "", head |-> <<>>, end |-> 0, sizes |-> <<>>, i |-> 0, at |-> 0]
Start(p, sought) ==
    [p |-> p, stk |-> <<Frame("Doc", NoHdr, Inf, FALSE, TRUE, 0)>>, ph |-> "hdr", cur |-> NoHdr, cached |-> FALSE,
     askip |-> FALSE, sought |-> sought, rem |-> 0, blk |-> NoBlk, code |-> 0, pend |-> 0, told |-> FALSE]

Top(s) == s.stk[Len(s.stk)]
SetTop(s, f) == [s EXCEPT !.stk[Len(s.stk)] = f]
Go(s, ph) == [s EXCEPT !.ph = ph]
Fail(s, c) == IF c = Eof THEN Go(s, "eof") ELSE [s EXCEPT !.ph = "err", !.code = c]
Kind(s) == LET t == Top(s).m  i == s.cur.id IN
           IF t = "Doc" THEN (IF i = SegmentId THEN [UnknownDesc EXCEPT !.kind = "master", !.sub = "Segment"]
                              ELSE IF i = EbmlId THEN [UnknownDesc EXCEPT !.kind = "master", !.sub = "Ebml"]
                              ELSE IF i = VoidId THEN VoidDesc ELSE UnknownDesc)
           ELSE IF i = VoidId THEN VoidDesc
           ELSE IF i \in DOMAIN ChildTab[t] THEN ChildTab[t][i] ELSE UnknownDesc
Skipping(s) == Top(s).skip \/ s.askip

\* A child's value has been read: record it in the enclosing structure.
Record(s, d, v) ==
    LET t == Top(s) IN
    IF t.skip \/ s.askip \/ d.field = "" THEN s
    ELSE LET old == t.val[d.field]
             new == IF ~d.rep THEN <<TRUE, v>>
                    ELSE IF Len(old) = 1 /\ ~old[1][1] THEN << <<TRUE, v>> >> ELSE Append(old, <<TRUE, v>>)
         IN  SetTop(s, [t EXCEPT !.val[d.field] = new,
                                 !.has = IF s.cur.sz = 0 THEN @ \ {d.field} ELSE @ \cup {d.field}])
Next0(s) == [s EXCEPT !.ph = "hdr", !.askip = FALSE]

\* Values that default to another field of the same structure.
Inherit(v, has, f, from) == IF f \in has THEN v ELSE [v EXCEPT ![f] = <<v[f][1], v[from][2]>>]
Complete(t) ==
    CASE t.m = "Video" -> Inherit(Inherit(t.val, t.has, "display_width", "pixel_width"), t.has, "display_height", "pixel_height")
      [] t.m = "Audio" -> Inherit(t.val, t.has, "output_frequency", "sampling_frequency")
      [] OTHER -> t.val

-----------------------------------------------------------------------------
\* Silent steps, by phase.
Observable == {"eb", "sgb", "sge", "bgb", "clb", "clbe", "done", "void", "unk", "blb", "fr", "ble"}
Stopped == {"err", "eof", "fin"}

ReadHeader(D, s) ==
    LET t == Top(s) IN
    IF t.m # "Doc" /\ s.p >= t.cap THEN Go(s, "end")
    ELSE IF s.p >= Len(D) THEN (IF t.m = "Doc" THEN Go(s, "fin") ELSE IF t.h.sz = Unk THEN Go(s, "end") ELSE Go(s, "eof"))
    ELSE LET h == Header(D, s.p) IN
         IF h.st # Ok THEN Fail(s, h.st)
         ELSE [s EXCEPT !.p = s.p + h.hs, !.ph = "val", !.cur = [id |-> h.id, hs |-> h.hs, sz |-> h.sz, pos |-> s.p]]

\* The masters implied around the element found after a seek.
NoWhere == [id |-> 0, hs |-> Unk, sz |-> Unk, pos |-> Unk]
Implied(path) == [i \in 1..Len(path) |-> Frame(path[i], [NoWhere EXCEPT !.id = MasterIds[path[i]]], Inf, FALSE, TRUE, 0)]

\* Where an element ends, exactly, as <<hi, lo>> to the base 2^28: sizes beyond Inf are compared with each other this way.
Base == 268435456
ExactEnd(D, h) ==
    LET w == Width(At(D, h.pos))
        z == h.hs - w
        b == [i \in 1..z |-> IF i = 1 THEN At(D, h.pos + w) - Pow2(8 - z) ELSE At(D, h.pos + w + i - 1)]
        f[i \in 0..z] == IF i = 0 THEN <<0, 0>>
                         ELSE LET m == (f[i - 1][2] % 1048576) * 256 + b[i] IN <<f[i - 1][1] * 256 + f[i - 1][2] \div 1048576, m>>
        lo == f[z][2] + h.pos + h.hs
    IN  <<f[z][1] + lo \div Base, lo % Base>>
RECURSIVE Bound(_, _)
Bound(stk, i) == IF stk[i].h.sz # Unk THEN i ELSE Bound(stk, i - 1)      \* the innermost element of known size
OutOf(D, s) ==
    LET t == Top(s)
        k == Bound(s.stk, Len(s.stk))
        a == ExactEnd(D, s.cur)
        b == ExactEnd(D, s.stk[k].h)
    IN  IF t.cap # Inf THEN s.p + (IF s.cur.sz = Unk THEN 0 ELSE s.cur.sz) > t.cap
        ELSE IF s.cur.sz # Inf \/ s.stk[k].m = "Doc" THEN FALSE
        ELSE a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])

Validate(D, s) ==
    LET t == Top(s)
        d == Kind(s)
        c == s.cur
        s1 == [s EXCEPT !.cached = FALSE]
        ask(x) == IF Top(x).skip THEN [x EXCEPT !.ph = "act", !.askip = TRUE] ELSE Go(x, "eb")
    IN  IF t.m = "Doc"
        THEN IF d.kind = "master" THEN ask([s1 EXCEPT !.sought = FALSE])
             ELSE IF s.sought /\ c.id \in AllIds
                  THEN ask([s1 EXCEPT !.sought = FALSE, !.stk = s.stk \o Implied(Paths[c.id])])
             ELSE IF d.kind = "unknown" /\ c.sz = Unk THEN Fail(s1, Indefinite)
             ELSE ask(s1)
        ELSE IF OutOf(D, s) THEN Fail(s1, Overflow)
        ELSE IF d.kind = "unknown" /\ t.h.sz = Unk THEN [s EXCEPT !.ph = "end", !.cached = TRUE]
        ELSE IF d.kind = "unknown" /\ c.sz = Unk THEN Fail(s1, Indefinite)
        ELSE ask(s1)

Act(D, s) ==
    LET t == Top(s)
        d == Kind(s)
        c == s.cur
        startsCluster == t.m = "Cluster" /\ d.kind \in {"sblock", "master"} /\ ~t.started /\ ~Skipping(s)
        nest == IF d.kind = "master" /\ d.sub = t.m THEN t.depth + 1 ELSE 0
    IN  IF s.askip /\ c.sz # Unk
        THEN (IF s.p + c.sz > Len(D) THEN Go(s, "eof") ELSE Next0([s EXCEPT !.p = s.p + c.sz]))
        ELSE IF ~SizeOk(d.kind, c.sz) THEN Fail(s, BadSize)
        ELSE IF nest > 25 THEN Fail(s, TooDeep)
        ELSE Go(s, IF startsCluster THEN "clb" ELSE "enter")

Enter(D, s) ==
    LET t == Top(s)
        d == Kind(s)
        c == s.cur
        q == Min(Inf, s.p + c.sz)
    IN  CASE d.kind = "master" ->
               LET skip == Skipping(s)
                   nest == IF d.sub = t.m THEN t.depth + 1 ELSE 0
                   f == Frame(d.sub, c, IF c.sz = Unk THEN t.cap ELSE q, skip, d.sub # "Cluster", nest)
               IN  [s EXCEPT !.stk = Append(@, f), !.askip = FALSE,
                             !.ph = IF skip THEN "hdr" ELSE IF d.sub = "Segment" THEN "sgb" ELSE IF d.sub = "BlockGroup" THEN "bgb" ELSE "hdr"]
          [] d.kind = "void" -> [s EXCEPT !.ph = "void", !.rem = c.sz]
          [] d.kind = "unknown" -> [s EXCEPT !.ph = "unk", !.rem = c.sz]
          [] d.kind \in Leaf ->
               IF d.kind = "bool" /\ BadBool(D, s.p, c.sz) THEN Fail(s, BadValue)
               ELSE IF q > Len(D) THEN Go(s, "eof")
               ELSE Next0([Record(s, d, Decode(d, Slice(D, s.p, c.sz))) EXCEPT !.p = q])
          [] d.kind = "vblock" ->
               LET h == BlockHead(D, s.p, FALSE) IN
               IF h.st # Ok THEN Fail(s, h.st)
               ELSE IF h.len # c.sz THEN Fail(s, BadValue)
               ELSE Next0([Record(s, d, [track |-> h.val.track, tc |-> h.val.tc]) EXCEPT !.p = q])
          [] d.kind \in {"block", "sblock"} ->
               LET h == BlockHead(D, s.p, TRUE) IN
               IF h.st # Ok THEN Fail(s, h.st)
               ELSE IF h.len > c.sz THEN Fail(s, BadValue)
               ELSE IF Skipping(s) THEN (IF q > Len(D) THEN Go(s, "eof") ELSE Next0([s EXCEPT !.p = q]))
               ELSE [s EXCEPT !.ph = "blb", !.blk = [kind |-> d.kind, head |-> h, end |-> q, sizes |-> <<>>, i |-> 0, at |-> 0]]

\* Begin of a block accepted: split it.
Split(D, s) ==
    LET l == Laces(D, s.p, s.blk.head, s.blk.end) IN
    IF ~l.ok THEN Go(s, "badlace")
    ELSE [s EXCEPT !.p = l.at, !.ph = "fr", !.blk.sizes = l.sizes, !.blk.i = 1, !.blk.at = l.at, !.rem = l.sizes[1]]

EndElement(s) ==
    LET t == Top(s) IN
    IF t.skip THEN Go(s, "pop")
    ELSE IF t.m = "Cluster" /\ ~t.started THEN Go(s, "clbe")
    ELSE IF t.m = "Segment" THEN Go(s, "sge")
    ELSE IF t.m \in Reported THEN Go(s, "done")
    ELSE Go(s, "pop")

Pop(s) ==
    LET t == Top(s)
        s1 == [s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)]
        par == Top(s1)
        keep == ~t.skip /\ ~par.skip /\ par.m \notin Walked \cup {"Doc"}
        d == ChildTab[par.m][MasterIds[t.m]]
        \* an element's own size tells whether it was empty
        s2 == IF keep THEN [Record([s1 EXCEPT !.askip = FALSE, !.cur = t.h], d, Complete(t)) EXCEPT !.cur = s.cur] ELSE s1
    IN  [s2 EXCEPT !.ph = IF s.cached THEN "val" ELSE "hdr", !.askip = FALSE]

Silent(D, s) ==
    CASE s.ph = "hdr" -> ReadHeader(D, s)
      [] s.ph = "val" -> Validate(D, s)
      [] s.ph = "act" -> Act(D, s)
      [] s.ph = "enter" -> Enter(D, s)
      [] s.ph = "split" -> Split(D, s)
      [] s.ph = "skiprest" -> IF s.blk.end > Len(D) THEN Go(s, "eof") ELSE Next0([s EXCEPT !.p = s.blk.end])
      [] s.ph = "end" -> EndElement(s)
      [] s.ph = "pop" -> Pop(s)

-----------------------------------------------------------------------------
\* The callback owed to the user: name and contents.
Meta(h) == <<h.id, h.hs, h.sz, h.pos>>
Due(s) ==
    LET t == Top(s) IN
    CASE s.ph = "eb" -> [c |-> "ElementBegin", m |-> Meta(s.cur)]
      [] s.ph = "sgb" -> [c |-> "SegmentBegin", m |-> Meta(t.h)]
      [] s.ph = "sge" -> [c |-> "SegmentEnd", m |-> Meta(t.h)]
      [] s.ph = "bgb" -> [c |-> "BlockGroupBegin", m |-> Meta(t.h)]
      [] s.ph \in {"clb", "clbe"} -> [c |-> "ClusterBegin", m |-> Meta(t.h), v |-> t.val]
      [] s.ph = "done" -> [c |-> IF t.m \in {"Cluster", "BlockGroup"} THEN t.m \o "End" ELSE t.m, m |-> Meta(t.h), v |-> Complete(t)]
      [] s.ph = "void" -> [c |-> "Void", m |-> Meta(s.cur), rem |-> s.rem]
      [] s.ph = "unk" -> [c |-> "UnknownElement", m |-> Meta(s.cur), rem |-> s.rem]
      [] s.ph = "blb" -> [c |-> IF s.blk.kind = "sblock" THEN "SimpleBlockBegin" ELSE "BlockBegin", m |-> Meta(s.cur),
                          v |-> BlockVal(s.blk.kind, s.blk.head)]
      [] s.ph = "ble" -> [c |-> IF s.blk.kind = "sblock" THEN "SimpleBlockEnd" ELSE "BlockEnd", m |-> Meta(s.cur),
                          v |-> BlockVal(s.blk.kind, s.blk.head)]
      [] s.ph = "fr" -> [c |-> "Frame", m |-> Meta(s.cur), fm |-> <<s.blk.at, s.blk.sizes[s.blk.i]>>, rem |-> s.rem]

Consuming == {"void", "unk", "fr"}
\* The user answers: skip (for the callbacks that may), r the status, used the bytes consumed.
Answer(s, skip, r, used) ==
    LET t == Top(s)
        s0 == IF s.ph \in Consuming THEN [s EXCEPT !.p = s.p + used, !.rem = IF @ = Inf THEN Inf ELSE @ - used] ELSE s
    IN  IF r # Ok THEN [s0 EXCEPT !.pend = r]
        ELSE CASE s.ph = "eb" -> [s EXCEPT !.ph = "act", !.askip = skip]
               [] s.ph = "sgb" -> [SetTop(s, [t EXCEPT !.skip = skip]) EXCEPT !.ph = "hdr"]
               [] s.ph = "bgb" -> [SetTop(s, [t EXCEPT !.skip = skip]) EXCEPT !.ph = "hdr"]
               [] s.ph \in {"clb", "clbe"} -> [SetTop(s, [t EXCEPT !.skip = skip, !.started = TRUE])
                                                EXCEPT !.ph = IF s.ph = "clb" THEN "enter" ELSE "end"]
               [] s.ph \in {"sge", "done"} -> Go(s, "pop")
               [] s.ph \in {"void", "unk"} -> Next0(s0)
               [] s.ph = "blb" -> Go(s, IF skip THEN "skiprest" ELSE "split")
               [] s.ph = "fr" -> IF s.blk.i < Len(s.blk.sizes)
                                 THEN [s0 EXCEPT !.blk.i = @ + 1, !.blk.at = s0.p, !.rem = s.blk.sizes[s.blk.i + 1]]
                                 ELSE Go(s0, "ble")
               [] s.ph = "ble" -> Next0(Record(s, Kind(s), BlockVal(s.blk.kind, s.blk.head)))
=============================================================================
