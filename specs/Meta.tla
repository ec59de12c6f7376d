-------------------------------- MODULE Meta --------------------------------
(* Metadata of a muxing session: what every setter accepts and stores, when   *)
(* the headers can be written, and what a reader of the file has to see.      *)
(* Values are strings: numbers in decimal, real numbers as 1024ths, texts and *)
(* binaries as "s" followed by hex digits, "none" for an absent value.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == "none"
TrackNumbers == 1..126

BaseFields == [codec_id |-> None, language |-> None, name |-> None, codec_private |-> None,
               type |-> "0", uid |-> "0", codec_delay |-> "0", seek_pre_roll |-> "0",
               default_duration |-> "0", mbai |-> "0",
               width |-> "0", height |-> "0", pixel_width |-> "0", pixel_height |-> "0",
               display_width |-> "0", display_height |-> "0",
               cl |-> "0", cr |-> "0", ct |-> "0", cb |-> "0", frame_rate |-> "0",
               colour_space |-> None, stereo |-> "0", alpha |-> "0",
               bit_depth |-> "0", channels |-> "0", rate |-> "0"]

NoColour == [set |-> FALSE]
NoProj == [set |-> FALSE]

NewTrack(kind, n, uid) ==
    [kind |-> kind, number |-> n, f |-> [BaseFields EXCEPT !.uid = uid], enc |-> <<>>,
     colour |-> NoColour, proj |-> NoProj]

InitMeta == [scale |-> "1000000", mux |-> None, wri |-> None, date |-> None,
             tracks |-> <<>>, chapters |-> <<>>, tags |-> <<>>]

Used(m) == {m.tracks[i].number : i \in DOMAIN m.tracks}

\* --- adding tracks: n is the number reported, 0 for a refusal
AddTrackOk(m, num, n) ==
    IF num < 0 \/ num > 126 \/ num \in Used(m) \/ Len(m.tracks) >= 126
    THEN n = 0
    ELSE /\ n \in TrackNumbers /\ n \notin Used(m)
         /\ num > 0 => n = num

AddTrack(m, kind, n, uid, defs) ==
    IF n = 0 THEN m
    ELSE [m EXCEPT !.tracks = Append(@, [NewTrack(kind, n, uid) EXCEPT !.f = defs @@ [@ EXCEPT !.uid = uid]])]

\* --- setters
StereoModes == {"0", "1", "2", "3", "11"}
AlphaModes == {"0", "1"}
Texts == {"codec_id", "language", "name", "colour_space"}

Accepts(f, v) == CASE f = "stereo" -> v \in StereoModes
                   [] f = "alpha" -> v \in AlphaModes
                   [] f = "codec_private" -> v # "s"
                   [] OTHER -> TRUE
\* A null text leaves the old value.
SetField(m, t, f, v) ==
    IF ~Accepts(f, v) \/ (f \in Texts /\ v = None) THEN m
    ELSE [m EXCEPT !.tracks[t].f = [@ EXCEPT ![f] = v]]

AddEnc(m, t, v) ==      \* v: key id, None when not given; an empty one is refused but the entry stays
    [m EXCEPT !.tracks[t].enc = Append(@, IF v = "s" THEN None ELSE v)]

\* --- colour: u maps the thirteen integer fields to strings (or None);
\* lmax, lmin: << >> or <<n>>; r, g, b, w: << >> or <<x, y>>  (1024ths)
ColourInts == {"matrix", "bits", "csx", "csy", "cbx", "cby", "sitx", "sity", "range", "transfer",
               "primaries", "cll", "fall"}
Strs(S) == {ToString(x) : x \in S} \cup {None}
EnumOk(u) == /\ u.matrix \in Strs(0..10)
             /\ u.sitx \in Strs(0..2) /\ u.sity \in Strs(0..2)
             /\ u.range \in Strs(0..3)
             /\ u.transfer \in Strs(1..18)
             /\ u.primaries \in Strs(0..10 \cup {22})
ChromaOk(q) == q = <<>> \/ (q[1] \in 0..1024 /\ q[2] \in 0..1024)
\* 0 .. 999.99 and 0 .. 9999.99 in 1024ths (as 32-bit floats)
LumOk(c) == /\ c.lmin # <<>> => c.lmin[1] >= 0 /\ c.lmin[1] <= 1023989
            /\ c.lmax # <<>> => c.lmax[1] >= 0 /\ c.lmax[1] <= 10239990
            /\ c.lmin # <<>> /\ c.lmax # <<>> => c.lmin[1] <= c.lmax[1]
HasMM(c) == c.lmax # <<>> \/ c.lmin # <<>> \/ c.r # <<>> \/ c.g # <<>> \/ c.b # <<>> \/ c.w # <<>>
ColourEmpty(c) == ~c.set \/ ((\A f \in ColourInts : c.u[f] = None) /\ ~HasMM(c))
ColourOk(c) == ColourEmpty(c)
               \/ (EnumOk(c.u) /\ LumOk(c) /\ ChromaOk(c.r) /\ ChromaOk(c.g) /\ ChromaOk(c.b) /\ ChromaOk(c.w))

\* --- chapters and tags
NewChapter(uid) == [uid |-> uid, id |-> None, start |-> "0", stop |-> "0", disp |-> <<>>]

\* --- writing the headers succeeds exactly when every mandatory piece is there
TrackWritable(t) ==
    /\ t.f.type # "0" /\ t.f.codec_id # None
    /\ t.f.codec_id = "s565f415631" => t.f.codec_private # None      \* V_AV1
    /\ \A i \in DOMAIN t.enc : t.enc[i] # None
    /\ t.kind = "video" => ColourOk(t.colour)
Writable(m) ==
    /\ m.tracks # <<>>
    /\ \A i \in DOMAIN m.tracks : TrackWritable(m.tracks[i])
    /\ \A i \in DOMAIN m.chapters : \A d \in DOMAIN m.chapters[i].disp : m.chapters[i].disp[d][1] # None
    /\ \A i \in DOMAIN m.tags : \A d \in DOMAIN m.tags[i] : m.tags[i][d][1] # None /\ m.tags[i][d][2] # None

\* --- what a reader sees
OptN(q, k) == IF q = <<>> THEN None ELSE ToString(q[k])
Nz(v) == IF v = "0" THEN None ELSE v           \* zero is the absence of the element
Or(v, d) == IF v = None THEN d ELSE v

EncView(key) == [order |-> "0", scope |-> "1", type |-> "1", nenc |-> "1", ncomp |-> "0",
                 algo |-> "5", key |-> key, cipher |-> "1"]
EncViews(t) == [i \in DOMAIN t.enc |-> EncView(t.enc[i])]

ColourView(c) ==
    IF ColourEmpty(c) THEN <<>>
    ELSE c.u @@ (IF ~HasMM(c) THEN <<>>
                 ELSE [lmax |-> OptN(c.lmax, 1), lmin |-> OptN(c.lmin, 1),
                       rx |-> OptN(c.r, 1), ry |-> OptN(c.r, 2), gx |-> OptN(c.g, 1), gy |-> OptN(c.g, 2),
                       bx |-> OptN(c.b, 1), by |-> OptN(c.b, 2), wx |-> OptN(c.w, 1), wy |-> OptN(c.w, 2)])
ProjView(p) == IF ~p.set THEN <<>>
               ELSE [type |-> p.type, yaw |-> p.yaw, pitch |-> p.pitch, roll |-> p.roll, priv |-> p.priv]

PixW(f) == IF f.pixel_width # "0" THEN f.pixel_width ELSE f.width
PixH(f) == IF f.pixel_height # "0" THEN f.pixel_height ELSE f.height
VideoView(f) ==
    [width |-> PixW(f), height |-> PixH(f),
     display_width |-> IF f.display_width # "0" THEN f.display_width ELSE PixW(f),
     display_height |-> IF f.display_height # "0" THEN f.display_height ELSE PixH(f),
     stereo |-> f.stereo, frame_rate |-> f.frame_rate]
AudioView(f) == [rate |-> f.rate, channels |-> f.channels, bit_depth |-> f.bit_depth]

\* The first parser reports absent numbers as 0, the second one as absent.
Common(t, abs(_)) ==
    [number |-> ToString(t.number), uid |-> t.f.uid, type |-> t.f.type, codec_id |-> t.f.codec_id,
     language |-> t.f.language, name |-> t.f.name, codec_private |-> t.f.codec_private,
     codec_delay |-> abs(t.f.codec_delay), seek_pre_roll |-> abs(t.f.seek_pre_roll),
     default_duration |-> abs(t.f.default_duration), enc |-> EncViews(t)]
Same(v) == v
MkvTrack(t) ==
    Common(t, Same)
    @@ (CASE t.kind = "video" -> [v |-> VideoView(t.f) @@ [colour_space |-> t.f.colour_space],
                                  c |-> ColourView(t.colour), p |-> ProjView(t.proj)]
          [] t.kind = "audio" -> [a |-> AudioView(t.f)]
          [] OTHER -> <<>>)
WpTrack(t) ==
    Common(t, Nz)
    @@ (CASE t.kind = "video" -> [v |-> VideoView(t.f) @@ [alpha |-> t.f.alpha, cl |-> t.f.cl, cr |-> t.f.cr,
                                                           ct |-> t.f.ct, cb |-> t.f.cb],
                                  c |-> ColourView(t.colour), p |-> ProjView(t.proj)]
          [] t.kind = "audio" -> [a |-> AudioView(t.f)]
          [] OTHER -> <<>>)

ChapterView(c) == [ed |-> "0", uid |-> c.uid, id |-> c.id, start |-> c.start, stop |-> c.stop,
                   exact |-> "1", disp |-> c.disp]
ChapterViews(m) == [i \in DOMAIN m.chapters |-> ChapterView(m.chapters[i])]

\* The document is "webm" when every codec is one WebM allows: A_OPUS, A_VORBIS, V_AV1, V_VP8, V_VP9, D_WEBVTT/CAPTIONS, D_WEBVTT/DESCRIPTIONS, D_WEBVTT/METADATA, D_WEBVTT/SUBTITLES.
WebmCodecs == {"s415f4f505553", "s415f564f52424953", "s565f415631", "s565f565038", "s565f565039", "s445f5745425654542f43415054494f4e53", "s445f5745425654542f4445534352495054494f4e53", "s445f5745425654542f4d45544144415441", "s445f5745425654542f5355425449544c4553"}
DocType(m) == IF \A i \in DOMAIN m.tracks : m.tracks[i].f.codec_id \in WebmCodecs
              THEN "s7765626d" ELSE "s6d6174726f736b61"
MkvInfo(m) == [scale |-> m.scale, wri |-> m.wri, mux |-> m.mux, doctype |-> DocType(m)]
\* The first parser does not report tags without any name and value.
MkvTags(m) == SelectSeq(m.tags, LAMBDA t : t # <<>>)
WpInfo(m) == MkvInfo(m) @@ [date |-> m.date]
=============================================================================
