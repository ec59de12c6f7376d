------------------------------- MODULE MCMkv -------------------------------
(* Small files: a fixed header and up to MaxTok tokens, each a whole cluster,   *)
(* the beginning of a cluster of unknown size, a block inside the latter, or    *)
(* something to be ignored.  The file becomes available in two steps.           *)
(* Checked: the decoding (Mkv) returns the structure that was written; the      *)
(* streaming machine (Webm) agrees with it on the file and on every prefix;     *)
(* lookups return what their definition promises.  Every session is printed and *)
(* replayed into the parsers.                                                   *)
EXTENDS Mkv, Json, SequencesExt
CONSTANTS MaxTok, Step
VARIABLES toks, unk, doc, str, avail, n, hist, out, W
vars == <<toks, unk, doc, str, avail, n, hist, out, W>>
View == <<toks, unk, avail, n, hist, out>>

Size(k) == IF k < 127 THEN <<128 + k>> ELSE <<64 + k \div 256, k % 256>>
E(id, body) == id \o Size(Len(body)) \o body
TrackOf(num, ty, more) == E(<<174>>, E(<<215>>, <<num>>) \o E(<<115, 197>>, <<num>>) \o E(<<131>>, <<ty>>) \o E(<<134>>, <<88>>) \o more)
EbmlHead == E(<<26, 69, 223, 163>>, E(<<66, 130>>, <<119, 101, 98, 109>>))
Opening == E(<<21, 73, 169, 102>>, E(<<42, 215, 177>>, <<1>>))
        \o E(<<22, 84, 174, 107>>, TrackOf(1, 1, E(<<224>>, E(<<176>>, <<2>>) \o E(<<186>>, <<3>>)))
                                   \o TrackOf(2, 2, E(<<225>>, E(<<181>>, <<63, 128, 0, 0>>) \o E(<<159>>, <<1>>))))

\* Blocks, as [b: element, r: what it says].
Blocks == <<
  [b |-> E(<<163>>, <<129, 0, 0, 128, 7>>), r |-> [track |-> 1, rel |-> 0, key |-> TRUE, sizes |-> <<1>>]],
  [b |-> E(<<163>>, <<130, 0, 2, 134, 1, 129, 8, 9, 9>>), r |-> [track |-> 2, rel |-> 2, key |-> TRUE, sizes |-> <<1, 2>>]],
  [b |-> E(<<160>>, E(<<161>>, <<129, 0, 4, 0, 5, 6>>) \o E(<<251>>, <<255>>)), r |-> [track |-> 1, rel |-> 4, key |-> FALSE, sizes |-> <<2>>]]
>>
Time(i) == E(<<231>>, <<10 * i>>)
Cl == <<31, 67, 182, 117>>
\* Tokens: what they append, given the number of clusters so far; 0: needs an open cluster.
Kinds == {"blk1", "blk2", "blk3", "void", "unkc", "unk8", "cl0", "cl1", "cl2", "cues", "junk"}
Bytes(k, i) ==
    CASE k = "blk1" -> Blocks[1].b
      [] k = "blk2" -> Blocks[2].b
      [] k = "blk3" -> Blocks[3].b
      [] k = "void" -> <<236, 129, 31>>
      [] k = "unkc" -> Cl \o <<255>> \o Time(i)
      [] k = "unk8" -> Cl \o <<1, 255, 255, 255, 255, 255, 255, 255>> \o Time(i)
      [] k = "cl0" -> E(Cl, Time(i))
      [] k = "cl1" -> E(Cl, Time(i) \o Blocks[1].b)
      [] k = "cl2" -> E(Cl, <<236, 128>> \o Time(i) \o Blocks[2].b \o Blocks[3].b)
      [] k = "cues" -> E(<<28, 83, 187, 107>>, E(<<187>>, E(<<179>>, <<10>>) \o E(<<183>>, E(<<247>>, <<1>>) \o E(<<241>>, <<0>>))))
      [] k = "junk" -> <<191, 130, 31, 67>>
Starts == {"unkc", "unk8", "cl0", "cl1", "cl2"}
Open(k, was) == IF k \in {"unkc", "unk8"} THEN TRUE ELSE IF k \in {"cl0", "cl1", "cl2", "cues"} THEN FALSE ELSE was
Adds(k) == CASE k = "blk1" -> <<Blocks[1].r>> [] k = "blk2" -> <<Blocks[2].r>> [] k = "blk3" -> <<Blocks[3].r>>
             [] k = "cl1" -> <<Blocks[1].r>> [] k = "cl2" -> <<Blocks[2].r, Blocks[3].r>> [] OTHER -> <<>>

\* Write the file token by token; str is the structure intended: per cluster, its blocks.
Init == /\ toks = <<>> /\ unk \in BOOLEAN /\ doc = <<>> /\ str = [open |-> FALSE, cl |-> <<>>] /\ avail = -1 /\ n = 0 /\ hist = <<>> /\ out = FALSE /\ W = <<>>
Write == /\ avail = -1 /\ Len(toks) < MaxTok
         /\ \E k \in Kinds :
              /\ k \in {"blk1", "blk2", "blk3"} => str.open
              /\ k = "cues" => "cues" \notin ToSet(toks)
              /\ ~((str.open \/ unk) /\ k = "junk")   \* (for the streaming parser an unknown element ends what has no size)
              /\ toks' = Append(toks, k)
              /\ str' = [open |-> Open(k, str.open),
                         cl |-> IF k \in Starts THEN Append(str.cl, Adds(k))
                                ELSE IF Adds(k) # <<>> THEN [str.cl EXCEPT ![Len(str.cl)] = @ \o Adds(k)] ELSE str.cl]
         /\ UNCHANGED <<unk, doc, avail, n, hist, out, W>>
RECURSIVE Body(_, _, _)
Body(t, i, c) == IF i > Len(t) THEN <<>>
                 ELSE LET c1 == IF t[i] \in Starts THEN c + 1 ELSE c IN Bytes(t[i], c1) \o Body(t, i + 1, c1)
Whole == LET b == Opening \o Body(toks, 1, 0) IN
         EbmlHead \o <<24, 83, 128, 103>> \o (IF unk THEN <<255>> ELSE <<64 + Len(b) \div 256, Len(b) % 256>>) \o b
HeadLen == Len(EbmlHead) + (IF unk THEN 5 ELSE 6) + Len(Opening)
Publish == /\ avail = -1 /\ Len(toks) > 0
           /\ doc' = Whole /\ W' = Walk(doc')
           /\ \E a \in {HeadLen + Step * i : i \in 0..((Len(Whole) - HeadLen) \div Step)} \cup {Len(Whole)} :
                avail' = a /\ hist' = <<a>>
           /\ UNCHANGED <<toks, unk, str, n, out>>

\* A client that loads clusters while it can, then waits for the rest.
LoadNeed(i) == IF i <= Len(W.nc) THEN W.nc[i].first ELSE Len(doc)
LoadOne == /\ avail >= 0 /\ n < Len(W.nc) /\ LoadNeed(n + 1) <= avail
           /\ n' = n + 1 /\ hist' = Append(hist, 0) /\ UNCHANGED <<toks, unk, doc, str, avail, out, W>>
Grow == /\ avail >= 0 /\ avail < Len(doc) /\ (n = Len(W.nc) \/ LoadNeed(n + 1) > avail)
        /\ avail' = Len(doc) /\ hist' = Append(hist, Len(doc)) /\ UNCHANGED <<toks, unk, doc, str, n, out, W>>
Finish == /\ avail >= 0 /\ avail = Len(doc) /\ n = Len(W.nc) /\ ~out /\ out' = TRUE
          /\ PrintT("HIST " \o ToJson([doc |-> doc, h |-> hist]))
          /\ UNCHANGED <<toks, unk, doc, str, avail, n, hist, W>>
Next == Write \/ Publish \/ LoadOne \/ Grow \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ready == avail >= 0
Sizes(b) == [i \in DOMAIN b.fr |-> b.fr[i][2]]
\* P01: the decoding returns what was written, in order, and its frames tile their blocks.
Faithful == Ready /\ hist = <<avail>> =>
    LET w == W IN
    /\ Len(w.cl) = Len(str.cl)
    /\ \A i \in DOMAIN str.cl :
         /\ Len(w.cl[i].bl) = Len(str.cl[i]) /\ w.cl[i].tc = 10 * i
         /\ \A j \in DOMAIN str.cl[i] :
              LET b == w.cl[i].bl[j]  x == str.cl[i][j] IN
              b.ok /\ b.track = x.track /\ b.rel = x.rel /\ b.key = x.key /\ Sizes(b) = x.sizes /\ b.tc = 10 * i + x.rel
\* Frames of a block lie one after the other and end with it (P03).
Tile == Ready /\ hist = <<avail>> =>
    LET w == W IN \A i \in DOMAIN w.cl : \A j \in DOMAIN w.cl[i].bl :
       LET b == w.cl[i].bl[j] IN /\ b.fr[Len(b.fr)][1] + b.fr[Len(b.fr)][2] = b.bend
                                 /\ \A m \in 1..(Len(b.fr) - 1) : b.fr[m][1] + b.fr[m][2] = b.fr[m + 1][1]
\* What the streaming machine reports of the first c bytes when it is asked to read everything.
RECURSIVE Stream(_, _, _)
Stream(D, s, acc) ==
    IF s.ph \in Stopped \cup {"badlace"} THEN acc
    ELSE IF s.ph \in Consuming /\ s.p + s.rem > Len(D) THEN acc
    ELSE IF s.ph \in Observable
         THEN Stream(D, Answer(s, FALSE, Ok, s.rem), IF s.ph = "ble" THEN Append(acc, <<s.blk.head.val.track, s.blk.head.val.tc, s.blk.sizes, s.blk.end>>) ELSE acc)
    ELSE Stream(D, Silent(D, s), acc)
AllBlk(w) == FlattenSeq([i \in DOMAIN w.cl |-> [j \in DOMAIN w.cl[i].bl |->
                 LET b == w.cl[i].bl[j] IN <<b.track, b.rel, Sizes(b), b.bend>>]])
\* P06: a prefix of the file yields exactly the blocks it contains.
Prefix == Ready /\ hist = <<avail>> => Stream(SubSeq(doc, 1, avail), Start(0, FALSE), <<>>) = SelectSeq(AllBlk(W), LAMBDA x : x[4] <= avail)
\* P02: what can be loaded from a prefix is a prefix of what can be loaded in the end, and all of it is in the end.
Loaded == Ready => n <= Len(W.nc) /\ \A i \in 1..n : W.nc[i].first <= avail
\* P04: a seek returns a block of the track, a key frame for video, not after the time if there is one.
Sought == Ready /\ avail = Len(doc) /\ hist = <<avail>> =>
    LET w == W  m == Len(w.nc) IN
    \A tn \in {1, 2} : \A q \in 0..(10 * Len(w.cl) + 6) : \A r \in {0} :
       LET x == SeekTo(w, m, tn, <<q, r>>)
           mine == {y \in {<<i, j>> : i \in 1..m, j \in 1..8} : y[2] \in DOMAIN w.nc[y[1]].bl /\ B(w, y).track = tn}
           ok == {y \in mine : tn = 2 \/ B(w, y).key}
       IN  /\ (x = <<>>) = (ok = {})
           /\ x # <<>> => /\ x \in ok
                          /\ (\E y \in ok : B(w, y).tc <= q) => w.nc[x[1]].tc <= q
                          /\ tn = 1 => ~\E y \in ok : B(w, y).tc <= q /\ B(w, y).tc > B(w, x).tc
       /\ LET c == ClusterFor(w, m, <<q, r>>) IN
          (c = 0) = (m = 0) /\ (c > 0 /\ c < m => w.nc[c + 1].tc > q) /\ (c > 1 => w.nc[c].tc <= q)
=============================================================================
