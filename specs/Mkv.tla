-------------------------------- MODULE Mkv --------------------------------
(* What a document contains, as the user of the seeking parser sees it:        *)
(* headers, clusters, blocks, frames and cue points, decoded from the bytes.   *)
(* The decoding is a function of the document alone, so any order of calls and *)
(* any growth of the available part has to show pieces of this one result.     *)
EXTENDS Webm

CluId == \h1F43B675
CuesId == \h1C53BB6B
InfoId == \h1549A966
TracksId == \h1654AE6B
EntryId == \hAE
SimpleId == \hA3
GroupId == \hA0
BlockId == \hA1

El(D, p) == LET h == Header(D, p) IN
            [id |-> h.id, pos |-> p, body |-> p + h.hs, end |-> IF h.sz = Unk THEN Unk ELSE p + h.hs + h.sz]
\* The elements from p up to end, or up to one of the identifiers in stop.
RECURSIVE Els(_, _, _, _)
Els(D, p, end, stop) ==
    IF p >= end THEN <<>>
    ELSE LET e == El(D, p) IN IF e.id \in stop THEN <<>> ELSE <<e>> \o Els(D, e.end, end, stop)
\* A cluster of unknown size extends to the next cluster, the cues, or the end.
UnkEnd(D, p, end) == LET s == Els(D, p, end, {CluId, CuesId}) IN IF s = <<>> THEN p ELSE s[Len(s)].end
RECURSIVE Level1(_, _, _)
Level1(D, p, end) ==
    IF p >= end THEN <<>>
    ELSE LET e == El(D, p)
             x == IF e.end = Unk THEN UnkEnd(D, e.body, end) ELSE e.end
         IN  <<[id |-> e.id, pos |-> e.pos, body |-> e.body, end |-> x, unk |-> e.end = Unk]>> \o Level1(D, x, end)

Of(s, id) == SelectSeq(s, LAMBDA e : e.id = id)
LastOf(s, id) == LET x == Of(s, id) IN x[Len(x)]
UIntOf(D, e) == Fold(D, e.body, e.end - e.body, 0)
Bytes8(b, fill) == [i \in 1..8 |-> IF i > 8 - Len(b) THEN b[i - (8 - Len(b))] ELSE fill]
Int8(D, e) == LET b == Slice(D, e.body, e.end - e.body) IN Bytes8(b, IF b[1] >= 128 THEN 255 ELSE 0)
UInt8(D, e) == Bytes8(Slice(D, e.body, e.end - e.body), 0)
Zero8 == [i \in 1..8 |-> 0]
One8 == [Zero8 EXCEPT ![8] = 1]
Minus8 == [i \in 1..8 |-> 255]

\* Frames of a block between p and end: positions and sizes; a frame has at least one byte.
Frames(l) == LET from[i \in 1..Len(l.sizes)] == IF i = 1 THEN l.at ELSE from[i - 1] + l.sizes[i - 1]
             IN  [i \in 1..Len(l.sizes) |-> <<from[i], l.sizes[i]>>]
BadBlock(e) == [ok |-> FALSE, group |-> FALSE, pos |-> e.pos, end |-> e.end, bend |-> e.end]
Blk(D, e, ctc) ==
    LET grp == e.id = GroupId
        kids == IF grp THEN Els(D, e.body, e.end, {}) ELSE <<>>
        has == ~grp \/ Of(kids, BlockId) # <<>>
        be == IF grp THEN Of(kids, BlockId)[1] ELSE e
    IN  IF ~has \/ be.end - be.body < 5 THEN BadBlock(e)
        ELSE LET h == BlockHead(D, be.body, TRUE)
                 l == IF h.st = Ok /\ be.body + h.len <= be.end THEN Laces(D, be.body, h, be.end) ELSE NoLace
                 refs == Of(kids, \hFB)
                 vals == [i \in DOMAIN refs |-> Int8(D, refs[i])]
                 isPrev(v) == v[1] >= 128 \/ v = Zero8
                 prevs == SelectSeq(vals, isPrev)
                 nexts == SelectSeq(vals, LAMBDA v : ~isPrev(v))
             IN  IF ~l.ok \/ h.val.track = 0 \/ (\E i \in DOMAIN l.sizes : l.sizes[i] = 0) THEN BadBlock(e)
                 ELSE [ok |-> TRUE, group |-> grp, pos |-> e.pos, end |-> e.end, bend |-> be.end,
                       track |-> h.val.track, rel |-> h.val.tc, tc |-> ctc + h.val.tc,
                       key |-> IF grp THEN refs = <<>> ELSE h.flags \div 128 = 1,
                       inv |-> ~h.val.visible, lac |-> h.val.lacing \div 2, fr |-> Frames(l),
                       disc |-> IF Of(kids, \h75A2) = <<>> THEN Zero8 ELSE Int8(D, LastOf(kids, \h75A2)),
                       dur |-> IF Of(kids, \h9B) = <<>> THEN Minus8 ELSE UInt8(D, LastOf(kids, \h9B)),
                       prev |-> IF prevs = <<>> THEN One8 ELSE prevs[Len(prevs)],
                       next |-> IF nexts = <<>> THEN Zero8 ELSE nexts[Len(nexts)]]
Clu(D, c, base) ==
    LET kids == Els(D, c.body, c.end, {CluId, CuesId})
        bs == SelectSeq(kids, LAMBDA e : e.id \in {SimpleId, GroupId} /\ e.end > e.body)
        tcs == SelectSeq(kids, LAMBDA e : e.id = \hE7 /\ e.end > e.body)
        tc == IF tcs = <<>> THEN 0 ELSE UIntOf(D, tcs[Len(tcs)])
    IN  [at |-> c.pos - base, pos |-> c.pos, end |-> c.end, unk |-> c.unk, tc |-> tc,
         first |-> IF bs = <<>> THEN c.end ELSE bs[1].body,
         bl |-> [i \in DOMAIN bs |-> Blk(D, bs[i], tc)]]

\* A cue point: time and, per track position, track, cluster position and block number.
Cue(D, e) ==
    LET kids == Els(D, e.body, e.end, {})
        tp(x) == LET q == Els(D, x.body, x.end, {})
                 IN  [track |-> UIntOf(D, LastOf(q, \hF7)), at |-> UIntOf(D, LastOf(q, \hF1)),
                      block |-> IF Of(q, \h5378) = <<>> THEN 1 ELSE UIntOf(D, LastOf(q, \h5378))]
        tps == Of(kids, \hB7)
    IN  [tc |-> UIntOf(D, LastOf(kids, \hB3)), tp |-> [i \in DOMAIN tps |-> tp(tps[i])]]

\* The whole document.  A leading EBML header, possibly other elements, one segment.
Scan0(D) == LET S == {p \in 0..Min(1023, Len(D) - 1) : At(D, p) = 26} IN
            IF S = {} THEN 0 ELSE CHOOSE p \in S : \A q \in S : p <= q
Walk(D) ==
    LET eb == El(D, Scan0(D))
        pre == Els(D, eb.end, Len(D), {SegmentId})
        sp == IF pre = <<>> THEN eb.end ELSE pre[Len(pre)].end
        sg == El(D, sp)
        stop == IF sg.end = Unk THEN Len(D) ELSE sg.end
        l1 == Level1(D, sg.body, stop)
        clusters == Of(l1, CluId)
        cl == [i \in DOMAIN clusters |-> Clu(D, clusters[i], sg.body)]
        fst == IF clusters = <<>> THEN stop ELSE clusters[1].pos
        info == Els(D, Of(l1, InfoId)[1].body, Of(l1, InfoId)[1].end, {})
        tr == Els(D, Of(l1, TracksId)[1].body, Of(l1, TracksId)[1].end, {})
        one(e) == LET q == Els(D, e.body, e.end, {}) IN <<UIntOf(D, LastOf(q, \hD7)), UIntOf(D, LastOf(q, \h83))>>
        ents == Of(tr, EntryId)
        cues == Of(l1, CuesId)
        cps == IF cues = <<>> THEN <<>> ELSE Of(Els(D, cues[1].body, cues[1].end, {}), \hBB)
    IN  [eb |-> eb.end, sp |-> sp, body |-> sg.body, stop |-> stop, unk |-> sg.end = Unk, fst |-> fst,
         hasfst |-> clusters # <<>>,
         cl |-> cl, nc |-> SelectSeq(cl, LAMBDA c : c.bl # <<>>),
         scale |-> IF Of(info, \h2AD7B1) = <<>> THEN 1000000 ELSE UIntOf(D, LastOf(info, \h2AD7B1)),
         cend |-> IF cues = <<>> THEN Len(D) ELSE cues[1].end,
         tracks |-> [i \in DOMAIN ents |-> one(ents[i])],
         cues |-> [i \in DOMAIN cps |-> Cue(D, cps[i])]]

-----------------------------------------------------------------------------
\* Queries.  Times are <<q, r>>: q ticks of the timecode scale and r nanoseconds, 0 <= r < scale.
Le(tc, t) == tc <= t[1]                       \* a point at tc is not after t
Lt(tc, t) == tc < t[1] \/ (tc = t[1] /\ t[2] > 0)   \* strictly before t
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

\* The cluster to start from for time t, among the first n with blocks; 0 if none.
ClusterFor(w, n, t) ==
    IF n = 0 THEN 0
    ELSE IF ~Lt(w.nc[1].tc, t) THEN 1
    ELSE MaxOf({i \in 1..n : Le(w.nc[i].tc, t)})
\* The cue for time t among the first n; 0 if none.
CueFor(w, n, t) ==
    IF n = 0 THEN 0
    ELSE IF ~Lt(w.cues[1].tc, t) THEN 1
    ELSE MaxOf({i \in 1..n : Le(w.cues[i].tc, t)})
TrackPos(c, tn) == LET S == {i \in DOMAIN c.tp : c.tp[i].track = tn} IN
                   IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* The block a cue's track position designates: <<cluster position, block index>>, or <<>>.
TypeOf(w, tn) == LET S == {i \in DOMAIN w.tracks : w.tracks[i][1] = tn} IN
                 IF S = {} THEN 0 ELSE w.tracks[CHOOSE i \in S : \A j \in S : i <= j][2]
CueBlock(w, tc, tp) ==
    LET S == {i \in DOMAIN w.cl : w.cl[i].at = tp.at} IN
    IF S = {} THEN <<>>
    ELSE LET c == w.cl[CHOOSE i \in S : TRUE]
             b == tp.block
             fits(i) == c.bl[i].track = tp.track /\ c.bl[i].tc = tc
         IN  IF b >= 1 /\ b <= Len(c.bl) /\ fits(b) THEN <<c.at, b>>
             ELSE IF b > Len(c.bl) THEN <<>>
             ELSE LET R == {i \in DOMAIN c.bl : c.bl[i].track = tp.track /\ c.bl[i].tc >= tc} IN
                  IF R = {} THEN <<>>
                  ELSE LET i == CHOOSE x \in R : \A y \in R : x <= y
                           ty == TypeOf(w, tp.track)
                       IN  IF c.bl[i].tc = tc /\ (ty = 2 \/ (ty = 1 /\ c.bl[i].key)) THEN <<c.at, i>> ELSE <<>>
\* Blocks of one track among the first n clusters with blocks, in file order, as <<cluster, block>>.
RECURSIVE FlatAux(_, _, _, _)
FlatAux(w, n, i, tn) ==
    IF i > n THEN <<>>
    ELSE LET own == SelectSeq([j \in DOMAIN w.nc[i].bl |-> <<i, j>>], LAMBDA x : w.nc[i].bl[x[2]].track = tn)
         IN  own \o FlatAux(w, n, i + 1, tn)
Flat(w, n, tn) == FlatAux(w, n, 1, tn)
B(w, x) == w.nc[x[1]].bl[x[2]]
Start0(w, n, tn) ==                \* the first block a track can start with: a key frame for video
    LET f == SelectSeq(Flat(w, n, tn), LAMBDA x : TypeOf(w, tn) # 1 \/ B(w, x).key)
    IN  IF f = <<>> THEN <<>> ELSE f[1]
SeekTo(w, n, tn, t) ==
    LET s == Start0(w, n, tn) IN
    IF s = <<>> THEN <<>>
    ELSE IF ~Lt(B(w, s).tc, t) THEN s
    ELSE LET f == Flat(w, n, tn) IN
         IF TypeOf(w, tn) = 1
         THEN LET S == {i \in DOMAIN f : B(w, f[i]).key /\ Le(B(w, f[i]).tc, t)
                                       /\ (f[i][1] = s[1] \/ Le(w.nc[f[i][1]].tc, t))} IN f[MaxOf(S)]
         ELSE LET S == {i \in DOMAIN f : Le(w.nc[f[i][1]].tc, t) \/ f[i] = s}
                  c == f[MaxOf(S)][1]
              IN  f[CHOOSE i \in DOMAIN f : f[i][1] = c /\ \A j \in DOMAIN f : f[j][1] = c => i <= j]
=============================================================================
