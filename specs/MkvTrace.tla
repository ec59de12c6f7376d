------------------------------ MODULE MkvTrace ------------------------------
(* A recorded session with the seeking parser.  mode "full": the document is   *)
(* well formed and becomes available bit by bit; every answer is either the    *)
(* right one or a request for more that is justified.  mode "cut": the file    *)
(* ends early or reads fail; whatever is reported is part of the complete       *)
(* document.  mode "free": any bytes at all; what is reported lies inside them. *)
EXTENDS Mkv, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, w, n, q, sk
vars == <<tid, k, w, n, q, sk>>
View == <<tid, k, n, q, sk>>         \* w follows from tid
T == Traces[tid]
D == T.doc
Ev == T.ev
Cut == T.mode = "cut"

\* n clusters and q cue points loaded so far; sk blocks seen from the streaming parser.
Init == tid \in DOMAIN Traces /\ k = 1 /\ n = 0 /\ q = 0 /\ sk = 0 /\ w = IF Traces[tid].mode = "free" THEN <<>> ELSE Walk(Traces[tid].doc)

Reject(why) == PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> why])) /\ FALSE
Need(c, why) == IF c THEN TRUE ELSE Reject(why)
TotalKnown(e) == e.tot # -1                       \* the total length is known
Eos(e) == TotalKnown(e) /\ e.a >= Len(D)          \* everything is there, and known to be everything
NotFull == -3
\* Whether it can be told that no more clusters follow.
Over(e) == TotalKnown(e) \/ (~w.unk /\ e.a >= w.stop)

\* A request for more: justified only while something below `need` is missing.
Starved(e, need) == Need(Cut \/ e.a < need \/ (~TotalKnown(e) /\ need >= Len(D)), [starved |-> e, need |-> need])
Asked(e) == Need(Cut \/ (e.p + e.l > e.a /\ (e.p + e.l <= Len(D) \/ ~TotalKnown(e))), [asks |-> e])
\* The same, when the answer is one number: a position to wait for, or "not full".
More(e, need) == /\ Need(e.r = NotFull \/ e.r > 0, [answer |-> e])
                 /\ Starved(e, need)
                 /\ Need(Cut \/ e.r <= 0 \/ e.r >= e.a, [asks |-> e])
                 /\ Need(Cut \/ e.r <= 0 \/ e.r <= Len(D) \/ ~TotalKnown(e), [asks |-> e, len |-> Len(D)])

ClusterAt(at) == LET S == {i \in DOMAIN w.cl : w.cl[i].at = at} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
\* How much has to be there before the end of a cluster is certain.
EndNeed(c) == IF c.unk /\ c.end < w.stop THEN c.end + 4 ELSE c.end
\* ... before the i-th cluster with blocks has been found.
LoadNeed(i) == IF i <= Len(w.nc) THEN w.nc[i].first ELSE Len(D)

Header1(e) == IF e.r = 0 THEN Need(e.pos = w.eb, [header |-> e, want |-> w.eb]) ELSE IF Cut THEN TRUE ELSE More(e, w.eb)
Segment1(e) == IF e.r = 0 THEN Need(e.pos = w.body, [segment |-> e, want |-> w.body]) ELSE IF Cut THEN TRUE ELSE More(e, w.body)
Headers(e) == IF e.r = 0 THEN TRUE
              ELSE IF Cut THEN TRUE ELSE More(e, IF w.hasfst THEN w.fst + 4 ELSE w.stop)
Dump(e) == /\ Need(e.scale = w.scale, [scale |-> e.scale, want |-> w.scale])
           /\ Need(e.tr = w.tracks, [tracks |-> e.tr, want |-> w.tracks])
           /\ Need(Cut \/ T.ref = "" \/ e.dump = T.ref, [headers |-> "differ from those of the complete file", got |-> e.dump, want |-> T.ref])

Load(e) ==
    CASE e.r = 0 -> /\ Need(n < Len(w.nc), [extra |-> e])
                    /\ Need(e.n = n + 1 /\ e.at = w.nc[n + 1].at, [cluster |-> e, want |-> w.nc[n + 1].at])
      [] e.r = 1 -> Need(e.n = n /\ (Cut \/ (n = Len(w.nc) /\ Over(e))), [missing |-> e, have |-> n, want |-> Len(w.nc)])
      [] e.r = NotFull -> e.n = n /\ Starved(e, LoadNeed(n + 1)) /\ Asked(e)
      \* a malformed block can hide the end of a cluster of unknown size
      [] OTHER -> Need(Cut \/ (n > 0 /\ w.nc[n].unk /\ \E b \in DOMAIN w.nc[n].bl : ~w.nc[n].bl[b].ok), [error |-> e])

Fields == {"track", "rel", "tc", "key", "inv", "lac", "disc", "fr"}
SameBlock(b, x) == /\ \A f \in Fields : b[f] = x[f]
                   /\ b.group = x.group
                   /\ x.group => b.dur = x.dur /\ b.prev = x.prev /\ b.next = x.next
                   /\ b.tc < 0 \/ (b.tq = b.tc /\ b.tr = 0)      \* a block cannot precede the start
                   /\ \A i \in DOMAIN b.d : b.d[i] = Slice(D, x.fr[i][1], x.fr[i][2])
Show(x) == [f \in DOMAIN x \ {"d", "disc", "dur", "prev", "next"} |-> x[f]]
ClusterTime(e, c) == Need(e.ct = -3 \/ (Cut /\ e.ct < 0) \/ (e.ct = c.tc /\ e.cr = 0), [clustertime |-> e.ct, rest |-> e.cr, want |-> c.tc])

\* Entry j of the cluster at position e.at, by whatever call.
Entry(e) ==
    LET i == ClusterAt(e.at) IN
    /\ Need(i # 0, [nocluster |-> e.at])
    /\ LET c == w.cl[i]  j == e.j IN
       /\ ClusterTime(e, c)
       /\ CASE e.r = 0 /\ e.got -> /\ Need(j <= Len(c.bl), [extra |-> Show(e.b), at |-> e.at, j |-> j])
                                   /\ Need(c.bl[j].ok, [malformed |-> Show(e.b)])
                                   /\ Need(SameBlock(e.b, c.bl[j]), [block |-> e.b, want |-> c.bl[j]])
                                   /\ Need(TotalKnown(e) => c.bl[j].bend <= e.tot, [cut |-> Show(e.b), length |-> e.tot])
            [] e.r = 0 /\ ~e.got -> Need(Cut \/ j = Len(c.bl) + 1, [ends |-> e, want |-> Len(c.bl)])
            [] e.r = NotFull -> Starved(e, IF j <= Len(c.bl) THEN c.bl[j].end ELSE EndNeed(c))
            [] OTHER -> Need(Cut \/ (j <= Len(c.bl) /\ ~c.bl[j].ok), [error |-> [r |-> e.r, at |-> e.at, j |-> j]])

Same(e, x, what) ==     \* e names the entry x = <<cluster among those with blocks, block>>, or none
    Need(IF x = <<>> THEN ~e.got ELSE e.got /\ e.at = w.nc[x[1]].at /\ e.j = x[2], [what |-> what, got |-> e, want |-> IF x = <<>> THEN x ELSE <<w.nc[x[1]].at, x[2]>>])
\* First and next block of a track among the n loaded clusters.  A search gives up after 100
\* clusters without a block of the track.
TrackFirst(e) ==
    IF e.r = 0 THEN Same(e, Start0(w, n, e.tn), "first")
    ELSE LET s == Start0(w, n, e.tn) IN
         IF e.r = 1 THEN Need(Cut \/ (s = <<>> /\ n = Len(w.nc)) \/ n >= 100, [lost |-> e, want |-> s])
         ELSE Need(Cut \/ e.r = NotFull, [error |-> e])
              /\ Need(Cut \/ n < Len(w.nc) \/ ~e.done \/ e.a < Len(D), [starved |-> e])
After(x, tn) == LET f == Flat(w, n, tn)
                    S == {i \in DOMAIN f : f[i] = x}
                IN  IF S = {} THEN <<>> ELSE LET i == CHOOSE y \in S : TRUE IN IF i < Len(f) THEN f[i + 1] ELSE <<>>
TrackNext(e) ==
    LET from == <<CHOOSE i \in DOMAIN w.nc : w.nc[i].at = e.fat, e.fj>>
        x == After(from, e.tn)
    IN  IF e.r = 0 THEN Same(e, x, "next")
        ELSE IF e.r = 1 THEN Need(Cut \/ (x = <<>> /\ n = Len(w.nc)) \/ n >= 100, [lost |-> e, want |-> x])
        ELSE /\ Need(Cut \/ e.r = NotFull, [error |-> e])
             /\ Need(Cut \/ n < Len(w.nc) \/ ~e.done \/ e.a < Len(D), [starved |-> e])

CueEv(e) ==         \* LoadCuePoint
    IF e.r = 1 THEN Need(q < Len(w.cues), [extracue |-> e]) ELSE Need(Cut \/ e.a < Len(D) \/ q = Len(w.cues), [missingcue |-> q, want |-> Len(w.cues)])
Find(e) ==
    LET i == CueFor(w, q, e.t)
        p == IF i = 0 THEN 0 ELSE TrackPos(w.cues[i], e.tn)
    IN  /\ Need(e.got = (p # 0), [find |-> e, want |-> i])
        /\ p # 0 => /\ Need(e.tc = w.cues[i].tc /\ e.tp = w.cues[i].tp[p], [find |-> e, want |-> w.cues[i]])
                    /\ LET x == CueBlock(w, w.cues[i].tc, w.cues[i].tp[p]) IN
                       Need(IF x = <<>> THEN ~e.blk.got ELSE e.blk.got /\ e.blk.at = x[1] /\ e.blk.j = x[2], [block |-> e.blk, want |-> x])
FindCluster1(e) == LET i == ClusterFor(w, n, e.t) IN
                   Need(IF i = 0 THEN ~e.got ELSE e.got /\ e.at = w.nc[i].at, [cluster |-> e, want |-> i])
Seek1(e) == IF e.r < 0 THEN Need(e.r = NotFull /\ (n < Len(w.nc) \/ ~e.done), [error |-> e])
            ELSE Same(e, SeekTo(w, n, e.tn, e.t), "seek")
\* The cluster that follows the one at e.fat.
Follow(e) ==
    LET i == CHOOSE x \in DOMAIN w.nc : w.nc[x].at = e.fat IN
    CASE e.r = 0 -> Need(i < Len(w.nc) /\ e.at = w.nc[i + 1].at, [next |-> e, want |-> i + 1])
      [] e.r = 1 -> Need(i = Len(w.nc) /\ Over(e), [lost |-> e])
      [] e.r = NotFull -> Starved(e, LoadNeed(i + 1)) /\ Asked(e)
      [] OTHER -> Need(FALSE, [error |-> e])

\* Last entry of a cluster, and its first and last times.
Last1(e) ==
    LET i == ClusterAt(e.cat) IN
    /\ Need(i # 0, [nocluster |-> e])
    /\ LET c == w.cl[i]  m == Len(c.bl) IN
       CASE e.r = 0 -> /\ Need(IF m = 0 THEN ~e.got \/ Cut ELSE e.got /\ e.at = e.cat /\ (e.j = m \/ (Cut /\ e.j <= m)), [last |-> e, want |-> m])
                       /\ IF m = 0 \/ Cut THEN TRUE ELSE Need(e.fq = c.bl[1].tc /\ e.frr = 0 /\ e.lq = c.bl[m].tc /\ e.lr = 0, [times |-> e, want |-> <<c.bl[1].tc, c.bl[m].tc>>])
         [] e.r = NotFull -> Starved(e, EndNeed(c))
         [] OTHER -> Need(Cut \/ \E b \in DOMAIN c.bl : ~c.bl[b].ok, [error |-> e])
\* The next cluster that is already loaded, or, after a cluster found through the cues, in the file.
After1(e) ==
    LET i == CHOOSE x \in DOMAIN w.nc : w.nc[x].at = e.fat
        lim == IF e.ix >= 0 THEN n ELSE Len(w.nc)
    IN  Need(IF i < lim THEN e.got /\ e.at = w.nc[i + 1].at ELSE ~e.got, [next |-> e, want |-> i + 1])
\* The cluster at an offset, loaded from the file unless it is there already.
Preload1(e) ==
    LET i == CHOOSE x \in DOMAIN w.nc : w.nc[x].at = e.off IN
    Need(e.got /\ e.at = e.off /\ e.ix = IF i <= n THEN i - 1 ELSE -1, [preload |-> e, want |-> i])
ParseCues1(e) == CASE e.r = 0 -> TRUE
                   [] e.r = 1 -> Need(w.cues = <<>>, [nocues |-> e])
                   [] e.r = NotFull -> Starved(e, w.cend) /\ Asked(e)
                   [] OTHER -> Need(FALSE, [error |-> e])

\* Blocks as the streaming parser reports them: all of them, in order.
AllBlocks == LET cat[i \in 0..Len(w.nc)] == IF i = 0 THEN <<>> ELSE cat[i - 1] \o w.nc[i].bl IN cat[Len(w.nc)]
StreamBlock(e) ==
    LET all == AllBlocks IN
    /\ Need(sk < Len(all), [extra |-> e])
    /\ LET x == all[sk + 1] IN
       /\ Need(x.bend <= e.a, [early |-> e])
       /\ Need(e.track = x.track /\ e.rel = x.rel /\ e.ct = x.tc - x.rel /\ e.fr = x.fr
               /\ e.d = [i \in DOMAIN x.fr |-> Slice(D, x.fr[i][1], x.fr[i][2])], [block |-> e, want |-> x])
StreamEnd(e) == Need(sk >= Cardinality({i \in DOMAIN AllBlocks : AllBlocks[i].bend <= e.a}), [reported |-> sk, complete |-> e.a])

\* Anything at all: a reported block has a track and frames that follow each other inside the file
\* (while its length is unknown, a block may be reported before its frames have arrived).
Contained(e) ==
    IF e.c = "en" /\ e.got
    THEN LET f == e.b.fr IN
         /\ Need(e.b.track > 0 /\ Len(f) > 0, [block |-> Show(e.b)])
         /\ Need(\A i \in DOMAIN f : f[i][1] > 0 /\ f[i][2] > 0 /\ (TotalKnown(e) => f[i][1] + f[i][2] <= e.tot), [outside |-> f, a |-> e.a])
         /\ Need(\A i \in 2..Len(f) : f[i][1] = f[i - 1][1] + f[i - 1][2], [apart |-> f])
         /\ Need(\A i \in DOMAIN e.b.d : e.b.d[i] = Slice(D, f[i][1], f[i][2]), [bytes |-> f])
    ELSE IF e.c = "sb"
    THEN Need(\A i \in DOMAIN e.fr : e.fr[i][1] >= 0 /\ e.fr[i][1] + e.fr[i][2] <= e.a /\ e.d[i] = Slice(D, e.fr[i][1], e.fr[i][2]), [outside |-> e])
    ELSE TRUE
Step(e) == IF T.mode = "free" THEN Contained(e) ELSE
    CASE e.c = "eb" -> Header1(e)
      [] e.c = "sg" -> Segment1(e)
      [] e.c = "ph" -> Headers(e)
      [] e.c = "hd" -> Dump(e)
      [] e.c = "lc" -> Load(e)
      [] e.c = "en" -> Entry(e)
      [] e.c = "tf" -> TrackFirst(e)
      [] e.c = "tn" -> TrackNext(e)
      [] e.c = "cu" -> CueEv(e)
      [] e.c = "fi" -> Find(e)
      [] e.c = "fc" -> FindCluster1(e)
      [] e.c = "sk" -> Seek1(e)
      [] e.c = "pn" -> Follow(e)
      [] e.c = "gl" -> Last1(e)
      [] e.c = "gn" -> After1(e)
      [] e.c = "pr" -> Preload1(e)
      [] e.c = "pc" -> ParseCues1(e)
      [] e.c = "sb" -> StreamBlock(e)
      [] e.c = "se" -> StreamEnd(e)
      \* a lace header may run past the end of its block, and of the file
      [] e.c = "bad" -> Need(Cut \/ \E i \in DOMAIN w.cl : \E j \in DOMAIN w.cl[i].bl : ~w.cl[i].bl[j].ok, [reader |-> e])

Next ==
    /\ k <= Len(Ev)
    /\ LET e == Ev[k] IN
       /\ Step(e)
       /\ n' = IF e.c = "lc" \/ e.c = "pn" THEN e.n ELSE n
       /\ q' = IF e.c = "cu" /\ e.r = 1 THEN q + 1 ELSE q
       /\ sk' = IF e.c = "sb" THEN sk + 1 ELSE sk
    /\ k' = k + 1
    /\ IF k = Len(Ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
    /\ UNCHANGED <<tid, w>>
Spec == Init /\ [][Next]_vars
=============================================================================
