------------------------------- MODULE Info -------------------------------
(* The report of webm_info: the lines it prints for a document under a choice of options, item
   by item.  A line is [d |-> depth, x |-> text], the text without the blanks used for layout.
   Times are in microseconds (block times, cue times, cluster times: u microseconds per tick). *)
EXTENDS Vp9, SequencesExt
Video == 1
Audio == 2
S(n) == ToString(n)
Concat(q) == FoldLeft(LAMBDA a, b : a \o b, "", q)
Flat(q) == FoldLeft(LAMBDA a, b : a \o b, <<>>, q)
\* ---- times
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN "-" ELSE ""
Pad3(n) == IF n < 10 THEN "00" \o S(n) ELSE IF n < 100 THEN "0" \o S(n) ELSE S(n)
Pad2(n) == IF n < 10 THEN "0" \o S(n) ELSE S(n)
\* whole milliseconds up to 1000 seconds: six digits show them exactly
Secs(us) == LET ms == Abs(us) \div 1000
                f == ms % 1000
            IN  Sgn(us) \o S(ms \div 1000) \o (IF f = 0 THEN "" ELSE IF f % 100 = 0 THEN "." \o S(f \div 100)
                                               ELSE IF f % 10 = 0 THEN "." \o Pad2(f \div 10) ELSE "." \o Pad3(f))
Nano(us) == IF us = 0 THEN "0" ELSE S(us) \o "000"
\* ---- options: the last one given for a name counts
Names == {"video", "audio", "size", "offset", "times_seconds", "ebml_header", "segment", "seekhead", "segment_info", "tracks", "clusters",
          "blocks", "codec_info", "clusters_size", "encrypted_info", "cues", "frame_stats", "vp9_level"}
OnByDefault == {"video", "audio", "times_seconds", "ebml_header", "segment", "segment_info", "tracks"}
OptStep(o, a) == IF a.k = "all" THEN Names ELSE IF a.on THEN o \cup {a.k} ELSE o \ {a.k}
Opts(args) == FoldLeft(OptStep, OnByDefault, args)
\* ---- pieces
L(d, x) == [d |-> d, x |-> x]
At(o, e) == (IF "offset" \in o THEN " @:" \o S(e.at) ELSE "") \o (IF "size" \in o THEN " size:" \o S(e.sz) ELSE "")
\* an optional fact: "" when the file does not hold it
F(d, name, v) == IF v = "" THEN <<>> ELSE <<L(d, name \o ":" \o v)>>
Base(o) == IF "segment" \in o THEN 1 ELSE 0
HdrLines(doc) ==
  <<L(0, "EBML Header:")>> \o
  [i \in 1..7 |-> L(1, <<"EBMLVersion", "EBMLReadVersion", "EBMLMaxIDLength", "EBMLMaxSizeLength", "Doc Type", "DocTypeVersion",
                         "DocTypeReadVersion">>[i] \o ":" \o doc.hdr[i])]
SegLines(doc, o) == <<L(0, "Segment:" \o At(o, doc.seg))>>
SeekLines(doc, o) ==
  IF doc.seek = <<>> THEN <<>>
  ELSE LET s == doc.seek[1] d == Base(o) IN
       <<L(d, "SeekHead:" \o At(o, s))>>
       \o Flat([i \in 1..Len(s.es) |-> <<L(d + 1, "Entry[" \o S(i - 1) \o "]" \o At(o, s.es[i])), L(d + 2, "Seek ID:" \o s.es[i].id),
                                         L(d + 2, "Seek position:" \o S(s.es[i].pos))>>])
       \o [i \in 1..Len(s.vs) |-> L(d + 1, "Void element[" \o S(i - 1) \o "]" \o At(o, s.vs[i]))]
InfoLines(doc, o) ==
  LET d == Base(o) t == doc.info.dur IN
  <<L(d, "SegmentInfo:" \o At(o, doc.info)), L(d + 1, "TimecodeScale:" \o Nano(doc.u)),
    L(d + 1, IF "times_seconds" \in o THEN "Duration(secs):" \o (IF t < 0 THEN "-1e-09" ELSE Secs(t))
             ELSE "Duration(nano):" \o (IF t < 0 THEN "-1" ELSE Nano(t)))>>
  \o F(d + 1, "Title", doc.info.title) \o F(d + 1, "MuxingApp", doc.info.mux) \o F(d + 1, "WritingApp", doc.info.wr)
\* ---- a track: the facts f of its entry, in a fixed order
Facts(d, t, names) == Flat([i \in 1..Len(names) |-> F(d, names[i], t.f[names[i]])])
CommonFacts == <<"TrackType", "TrackNumber", "Name", "CodecID", "CodecName", "PrivateData(size)">>
Vp9Facts == <<"VP9 profile", "VP9 level", "VP9 bit_depth", "VP9 chroma subsampling">>
EncFacts == <<"ContentEncodingOrder", "ContentEncodingScope", "ContentEncodingType", "ContentEncAlgo", "ContentEncKeyID", "ContentSignature",
              "ContentSigKeyID", "ContentSigAlgo", "ContentSigHashAlgo", "CipherMode">>
ColourFacts == <<"MatrixCoefficients", "BitsPerChannel", "ChromaSubsamplingHorz", "ChromaSubsamplingVert", "CbSubsamplingHorz",
                 "CbSubsamplingVert", "ChromaSitingHorz", "ChromaSitingVert", "Range", "TransferCharacteristics", "Primaries", "MaxCLL", "MaxFALL">>
MasterFacts == <<"PrimaryRChromaticityX", "PrimaryRChromaticityY", "PrimaryGChromaticityX", "PrimaryGChromaticityY", "PrimaryBChromaticityX",
                 "PrimaryBChromaticityY", "WhitePointChromaticityX", "WhitePointChromaticityY", "LuminanceMax", "LuminanceMin">>
ProjectionFacts == <<"ProjectionType", "ProjectionPrivate(size)", "ProjectionPoseYaw", "ProjectionPosePitch", "ProjectionPoseRoll">>
\* the display size is told only when it is not the pixel size in pixels
Shown(t) == IF t.f["DisplayUnit"] # "0" \/ t.f["DisplayWidth"] # t.f["PixelWidth"] \/ t.f["DisplayHeight"] # t.f["PixelHeight"]
            THEN <<"DisplayWidth", "DisplayHeight", "DisplayUnit">> ELSE <<>>
VideoLines(d, t) ==
  Facts(d, t, <<"PixelWidth", "PixelHeight", "FrameRate">> \o Shown(t))
  \o (IF ~t.colour THEN <<>>
      ELSE <<L(d, "Colour:")>> \o Facts(d + 1, t, ColourFacts) \o (IF ~t.master THEN <<>> ELSE <<L(d + 1, "MasteringMetadata:")>> \o Facts(d + 2, t, MasterFacts)))
  \o (IF ~t.proj THEN <<>> ELSE <<L(d, "Projection:")>> \o Facts(d + 1, t, ProjectionFacts))
AudioLines(d, t) == Facts(d, t, <<"Channels", "BitDepth", "SamplingFrequency", "CodecDelay", "SeekPreRoll">>)
TrackLines(t, o) ==
  LET d == Base(o) + 2 IN
  <<L(Base(o) + 1, "Track:" \o At(o, t))>> \o Facts(d, t, CommonFacts)
  \o (IF t.privbad THEN <<>>
      ELSE Facts(d, t, Vp9Facts) \o F(d, "DefaultDuration", t.f["DefaultDuration"]) \o (IF t.encoded THEN Facts(d, t, EncFacts) ELSE <<>>)
           \o (IF t.ty = Video THEN VideoLines(d, t) ELSE IF t.ty = Audio THEN AudioLines(d, t) ELSE <<>>))
\* ---- frames
Vp8Text(b) ==
  IF Len(b) < 3 THEN ""
  ELSE LET x == b[1] + 256 * b[2] + 65536 * b[3]
           key == x % 2 = 0
       IN IF key /\ (Len(b) < 6 \/ SubSeq(b, 4, 6) # <<157, 1, 42>>) THEN " invalid VP8 signature"
          ELSE " key:" \o (IF key THEN "1" ELSE "0") \o " v:" \o S((x \div 2) % 8) \o " altref:" \o S(1 - ((x \div 16) % 2))
               \o " partition_length:" \o S(x \div 32)
\* sizes of the frames of a superframe, <<>> for a frame alone
Huge == -1                \* beyond 31 bits
RECURSIVE LeBytes(_, _, _)
LeBytes(b, p, n) == IF n = 0 THEN 0 ELSE b[p] + 256 * LeBytes(b, p + 1, n - 1)
Index(b) == LET m == b[Len(b)]
                n == (m % 8) + 1
                w == ((m \div 8) % 4) + 1
                z == 2 + n * w
            IN  IF m \div 32 # 6 \/ Len(b) < z \/ b[Len(b) - z + 1] # m THEN <<>>
                ELSE [i \in 1..n |-> LET p == Len(b) - z + 2 + (i - 1) * w IN IF w = 4 /\ b[p + 3] > 127 THEN Huge ELSE LeBytes(b, p, w)]
\* what is known of the VP9 stream so far
NewVp9 == [slots |-> [i \in 1..8 |-> <<0, 0>>], cur |-> [w |-> 0, h |-> 0, dw |-> 0, dh |-> 0, depth |-> 0, fpm |-> 0, cols |-> 0, rows |-> 0],
           hist |-> <<>>, seen |-> <<>>, win |-> 0, wend |-> 0, bad |-> FALSE]
Carried == {"w", "h", "dw", "dh", "depth", "fpm", "cols", "rows"}
Us(t) == <<t \div 1000000, (t % 1000000) * 1000>>
\* a line that may be anything
Free == "?"
\* one frame at time t; i: its number in a superframe or -1
OneFrame(z, b, t, i) ==
  LET h == Decode(b, z.slots)
      cur == [f \in Carried |-> IF h[f] # -1 THEN h[f] ELSE z.cur[f]]
  IN IF h.v = "bad" THEN [z EXCEPT !.bad = TRUE]
     ELSE IF h.v # "ok" THEN [z EXCEPT !.bad = TRUE, !.x = Free]     \* reserved values: accepted or not
     ELSE [z EXCEPT !.cur = cur,
              !.slots = [j \in 1..8 |-> IF j \in h.set THEN <<cur.w, cur.h>> ELSE @[j]],
              !.hist = Append(@, [t |-> Us(t), sz |-> Len(b), w |-> cur.w, h |-> cur.h, alt |-> h.alt, key |-> h.key, depth |-> cur.depth,
                                  refresh |-> h.refresh, cols |-> cur.cols]),
              !.seen = Append(@, [t |-> t, alt |-> h.alt]),
              !.x = @ \o (IF i >= 0 THEN " packed [" \o S(i) \o "]:{" ELSE "")
                      \o " key:" \o S(h.key) \o " v:" \o S(h.prof) \o " altref:" \o S(h.alt) \o " errm:" \o S(h.er) \o " rt:" \o S(cur.rows)
                      \o " ct:" \o S(cur.cols) \o " fpm:" \o S(cur.fpm)
                      \o (IF h.key = 0 THEN "" ELSE " cs:" \o S(h.cs) \o (IF h.dw # h.w \/ h.dh # h.h THEN " dw:" \o S(h.dw) \o " dh:" \o S(h.dh) ELSE ""))
                      \o (IF i >= 0 THEN " size:" \o S(Len(b)) \o " }" ELSE "")]
\* frames that start less than a second before t
InWindow(z, t) == Cardinality({j \in 1..Len(z.seen) : t - z.seen[j].t < 1000000})
RECURSIVE Frames(_, _, _, _, _)
Frames(z, b, q, i, t) ==
  IF i > Len(q) \/ z.bad THEN z
  ELSE IF q[i] = Huge THEN [z EXCEPT !.x = Free, !.bad = TRUE]
  ELSE IF q[i] > Len(b) THEN [z EXCEPT !.x = @ \o " invalid VP9 frame size (" \o S(q[i]) \o ")", !.bad = TRUE]
  ELSE Frames(OneFrame(z, SubSeq(b, 1, q[i]), t, i - 1), SubSeq(b, q[i] + 1, Len(b)), q, i + 1, t)
\* z.bad: the stream has a frame that is not VP9; its statistics are then of no interest
Vp9Block(z, b, t) ==
  IF Len(b) = 0 THEN z @@ [x |-> ""]
  ELSE LET q == Index(b)
           y == TLCEval([NewVp9 EXCEPT !.slots = z.slots, !.cur = z.cur, !.hist = z.hist, !.seen = z.seen] @@ [x |-> ""])
           r == TLCEval(IF q = <<>> THEN OneFrame(y, b, t, -1) ELSE Frames(y, b, q, 1, t))
           n == InWindow(r, t)
       IN  [r EXCEPT !.win = IF n > z.win THEN n ELSE z.win, !.wend = IF n > z.win THEN t ELSE z.wend, !.bad = @ \/ z.bad]
\* ---- blocks: what a frame of an encrypted track holds before its data
Encrypted(b) == b[1] % 2 = 1
Parted(b) == (b[1] \div 2) % 2 = 1
Parts(b) ==            \* partition offsets: complete or none counted
  IF Len(b) < 10 THEN [x |-> "", n |-> 0]
  ELSE LET c == b[10]
           m == IF (Len(b) - 10) \div 4 < c THEN (Len(b) - 10) \div 4 ELSE c
           Off(i) == LET p == 11 + 4 * (i - 1) IN b[p] * 16777216 + b[p + 1] * 65536 + b[p + 2] * 256 + b[p + 3]
       IN  [x |-> Concat([i \in 1..m |-> " off[" \o S(i - 1) \o "]:" \o S(Off(i))]), n |-> IF m = c THEN 9 + 4 * c ELSE 0]
\* the bytes of codec data in a frame, "none" when they are encrypted
Clear(b, e) == IF ~e THEN [x |-> "", b |-> b, any |-> TRUE]
               ELSE IF ~Encrypted(b) THEN [x |-> "", b |-> Tail(b), any |-> TRUE]
               ELSE IF ~Parted(b) THEN [x |-> "", b |-> <<>>, any |-> FALSE]
               ELSE LET p == Parts(b) IN [x |-> p.x, b |-> SubSeq(b, 2 + p.n, Len(b)), any |-> TRUE]
FrameText(z, t, b, time, e) ==
  LET c == Clear(b, e) IN
  IF ~c.any THEN z @@ [x |-> ""]
  ELSE IF t.codec = "V_VP8" THEN z @@ [x |-> c.x \o Vp8Text(c.b)]
  ELSE IF t.codec = "V_VP9" THEN LET r == Vp9Block(z, c.b, time) IN [r EXCEPT !.x = IF @ = Free THEN Free ELSE c.x \o @]
  ELSE z @@ [x |-> c.x]
Strip(z) == [f \in DOMAIN z \ {"x"} |-> z[f]]
\* fold: texts of the frames of a block
FrameTexts(z, t, frs, time, e) ==
  FoldLeft(LAMBDA a, b : LET r == TLCEval(FrameText(a.z, t, b, time, e)) IN [z |-> Strip(r), xs |-> Append(a.xs, r.x)], [z |-> z, xs |-> <<>>], frs)
Wanted(t, o) == (t.ty = Video /\ "video" \in o) \/ (t.ty = Audio /\ "audio" \in o)
TrackOf(doc, n) == doc.trk[CHOOSE i \in 1..Len(doc.trk) : doc.trk[i].n = n]
\* [z, ls]
BlockLines(z, doc, b, o, d) ==
  LET t == TrackOf(doc, b.trk)
      time == b.t * doc.u
      e == "encrypted_info" \in o /\ t.enc
      g == IF b.group THEN 1 ELSE 0
      fr == b.fr[1]
      many == "codec_info" \in o /\ Len(b.fr) > 1
      f == TLCEval(IF "codec_info" \in o /\ t.ty = Video THEN FrameTexts(z, t, b.fr, time, e) ELSE [z |-> z, xs |-> <<>>])
      head == "Block:type:" \o (IF t.ty = Video THEN "V" ELSE "A") \o " frame:" \o (IF b.key THEN "I" ELSE "P")
              \o (IF "times_seconds" \in o THEN " secs:" \o Secs(time) ELSE " nano:" \o Nano(time))
              \o (IF "offset" \in o THEN " @_payload:" \o S(b.at) ELSE "") \o (IF "size" \in o THEN " size_payload:" \o S(b.sz) ELSE "")
              \o (IF ~e THEN "" ELSE " enc:" \o (IF Encrypted(fr) THEN "1" ELSE "0") \o " sub:" \o (IF Parted(fr) THEN "1" ELSE "0")
                                     \o (IF Encrypted(fr) /\ Len(fr) >= 9 THEN " iv:" \o b.iv ELSE ""))
  IN  [z |-> f.z,
       ls |-> (IF b.group THEN <<L(d, "BlockGroup:")>> ELSE <<>>)
              \o (IF many THEN <<L(d + g, head)>> \o [i \in 1..Len(f.xs) |-> L(d + g + 1, "VP8 data:" \o f.xs[i])]
                  ELSE <<L(d + g, IF f.xs = <<>> THEN head ELSE IF f.xs[1] = Free THEN Free ELSE head \o f.xs[1])>>)
              \o (IF b.group /\ b.pad # "" THEN <<L(d + 1, "DiscardPadding:" \o b.pad)>> ELSE <<>>)]
\* the video or audio blocks of a cluster, one after the other
ClusterBlocks(z, doc, c, o, d) ==
  FoldLeft(LAMBDA a, b : IF ~Wanted(TrackOf(doc, b.trk), o) THEN a
                         ELSE LET r == TLCEval(BlockLines(a.z, doc, b, o, d)) IN [z |-> r.z, ls |-> a.ls \o r.ls], [z |-> z, ls |-> <<>>], c.bs)
ClusterHead(doc, c, o) ==
  LET d == Base(o)
      du == IF c.bs = <<>> THEN 0 ELSE (c.bs[Len(c.bs)].t - c.bs[1].t) * doc.u
      T(name, v) == L(d + 1, IF "times_seconds" \in o THEN name \o " (sec):" \o Secs(v) ELSE name \o " (nano):" \o Nano(v))
  IN <<L(d, "Cluster:" \o At(o, c)), T("Timecode", c.t * doc.u), T("Duration", du), L(d + 1, "# Blocks:" \o S(Len(c.bs)))>>
ClusterLines(z, doc, c, o) ==
  LET r == TLCEval(IF "blocks" \in o THEN ClusterBlocks(z, doc, c, o, Base(o) + (IF "clusters" \in o THEN 1 ELSE 0)) ELSE [z |-> z, ls |-> <<>>])
  IN  [z |-> r.z, ls |-> (IF "clusters" \in o THEN ClusterHead(doc, c, o) ELSE <<>>) \o r.ls]
\* ---- cues
CueLine(doc, p, i, t, q, o) ==
  L(Base(o) + 1, "Cue Point:" \o S(i) \o " type:" \o (IF t.ty = Video THEN "V" ELSE "A") \o " track:" \o S(t.n)
    \o (IF "times_seconds" \in o THEN " secs:" \o Secs(p.t * doc.u) ELSE " nano:" \o Nano(p.t * doc.u))
    \o (IF "blocks" \in o THEN " block:" \o S(q.bn) ELSE "") \o (IF "offset" \in o THEN " @:" \o S(q.pos) ELSE ""))
CueLines(doc, o) ==
  IF doc.cues = <<>> THEN <<>>
  ELSE LET c == doc.cues[1]
           Pos(p, t) == SelectSeq(p.tp, LAMBDA q : q.trk = t.n)
       IN IF c.ps = <<>> THEN <<L(Base(o), "No cue points.")>>
          ELSE <<L(Base(o), "Cues:" \o At(o, c))>>
               \o Flat([i \in 1..Len(c.ps) |-> Flat([j \in 1..Len(doc.trk) |->
                    LET q == Pos(c.ps[i], doc.trk[j]) IN IF q = <<>> THEN <<>> ELSE <<CueLine(doc, c.ps[i], i, doc.trk[j], q[1], o)>>])])
CuesFirst(doc) == doc.cues # <<>> /\ doc.cl # <<>> /\ doc.cues[1].at < doc.cl[1].at
\* ---- statistics of the VP9 frames printed
Shows(z) == Len(SelectSeq(z.seen, LAMBDA f : f.alt = 0))
Alts(z) == {i \in 1..Len(z.seen) : z.seen[i].alt = 1}
\* frames shown between neighbouring altrefs: <<distance, place of the second>>
Gaps(z) == {<<p[2] - p[1] - 1, p[2]>> : p \in {q \in Alts(z) \X Alts(z) : q[1] < q[2] /\ \A k \in Alts(z) : ~(q[1] < k /\ k < q[2])}}
MinGap(z) == CHOOSE g \in Gaps(z) : \A h \in Gaps(z) : g[1] < h[1] \/ (g[1] = h[1] /\ g[2] <= h[2])
\* the frame rates are reported over the duration: here as frames per duration
StatLines(z) ==
  IF Gaps(z) = {} THEN <<>>
  ELSE <<L(0, "fps*duration:" \o S(Len(z.seen)) \o " displayed:" \o S(Shows(z))),
         L(0, "Minimum Altref Distance:" \o S(MinGap(z)[1]) \o " at:" \o Secs(z.seen[MinGap(z)[2]].t) \o " seconds"),
         L(0, "Maximum Window:" \o (IF z.wend > 1000000 THEN Secs(z.wend - 1000000) ELSE "0") \o "-" \o Secs(z.wend)
              \o " seconds Window fps:" \o S(z.win))>>
\* ---- the report, item by item
Items(doc) == <<[o |-> "hdr"], [o |-> "seg"], [o |-> "seek"], [o |-> "info"], [o |-> "tracks"]>>
              \o [i \in 1..Len(doc.trk) |-> [o |-> "track", i |-> i]]
              \o (IF CuesFirst(doc) THEN <<[o |-> "cues"]>> ELSE <<>>) \o <<[o |-> "count"]>>
              \o [i \in 1..Len(doc.cl) |-> [o |-> "cluster", i |-> i]] \o <<[o |-> "size"]>>
              \o (IF CuesFirst(doc) THEN <<>> ELSE <<[o |-> "cues"]>>) \o <<[o |-> "stats"], [o |-> "level"]>>
SumSz(q) == FoldLeft(LAMBDA a, c : a + c.sz, 0, q)
If(o, n, ls) == IF n \in o THEN ls ELSE <<>>
\* [z, ls, stop]: lines of an item, the stream afterwards, whether the report ends here
Emit(z, doc, it, o) ==
  LET P(ls) == [z |-> z, ls |-> ls, stop |-> FALSE] IN
  CASE it.o = "hdr" -> P(If(o, "ebml_header", HdrLines(doc)))
    [] it.o = "seg" -> P(If(o, "segment", SegLines(doc, o)))
    [] it.o = "seek" -> P(If(o, "seekhead", SeekLines(doc, o)))
    [] it.o = "info" -> P(If(o, "segment_info", InfoLines(doc, o)))
    [] it.o = "tracks" -> P(If(o, "tracks", <<L(Base(o), "Tracks:" \o At(o, doc.tracks))>>))
    [] it.o = "track" -> IF "tracks" \in o THEN [z |-> z, ls |-> TrackLines(doc.trk[it.i], o), stop |-> doc.trk[it.i].privbad] ELSE P(<<>>)
    [] it.o = "count" -> P(If(o, "clusters", <<L(Base(o), "Clusters (count):" \o S(Len(doc.cl)))>>))
    [] it.o = "cluster" -> LET r == ClusterLines(z, doc, doc.cl[it.i], o) IN [z |-> r.z, ls |-> r.ls, stop |-> FALSE]
    [] it.o = "size" -> P(If(o, "clusters_size", <<L(Base(o), "Clusters (size):" \o S(SumSz(doc.cl)))>>))
    [] it.o = "cues" -> P(If(o, "cues", CueLines(doc, o)))
    [] it.o = "stats" -> P(If(o, "frame_stats", StatLines(z)))
    [] OTHER -> P(<<>>)
=============================================================================
