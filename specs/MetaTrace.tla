------------------------------ MODULE MetaTrace ------------------------------
(* Every recorded call must be answered as the specification says, and both   *)
(* parsers must report the file's metadata as the specification derives it.   *)
EXTENDS Meta, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, m, done
vars == <<tid, k, m, done>>

Init == tid \in DOMAIN Traces /\ k = 1 /\ m = InitMeta /\ done = FALSE

Ev == Traces[tid].ev
Reject(why) == PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> why])) /\ FALSE
Need(c, why) == IF c THEN TRUE ELSE Reject(why)

\* Functions given as JSON objects: an empty object is an empty sequence for TLC's reader.
Diff(a, b) == {x \in DOMAIN a \cup DOMAIN b : x \notin DOMAIN a \/ x \notin DOMAIN b \/ a[x] # b[x]}
Keys(f) == DOMAIN f
Same2(a, b) == Keys(a) = Keys(b) /\ \A x \in Keys(a) : a[x] = b[x]

Show(f, D) == [x \in {y \in D : y \in DOMAIN f} |-> f[x]]
TrackDiff(got, want) ==
    LET D == Diff(got, want)
    IN  [fields |-> D, got |-> Show(got, D), want |-> Show(want, D)]

Views(side, got) ==
    LET wt == [i \in DOMAIN m.tracks |-> IF side = "mkv" THEN MkvTrack(m.tracks[i]) ELSE WpTrack(m.tracks[i])]
        wi == IF side = "mkv" THEN MkvInfo(m) ELSE WpInfo(m)
        gi == got.info
    IN  /\ Need(got.ok = 1, side \o " cannot read the file")
        /\ Need({x \in Diff(gi, wi) : ~(x \in {"mux", "wri"} /\ wi[x] = None)} = {},
                [side |-> side, info |-> gi, want |-> wi])
        /\ Need(Len(got.tracks) = Len(wt), side \o " sees another number of tracks")
        /\ \A i \in DOMAIN wt : Need(got.tracks[i] = wt[i], [side |-> side, track |-> i, d |-> TrackDiff(got.tracks[i], wt[i])])
        /\ Need(got.chapters = ChapterViews(m), [side |-> side, chapters |-> got.chapters, want |-> ChapterViews(m)])
        /\ LET wg == IF side = "mkv" THEN MkvTags(m) ELSE m.tags
           IN  Need(got.tags = wg, [side |-> side, tags |-> got.tags, want |-> wg])

Apply(e) ==
    CASE e.o \in {"scale", "mux", "wri", "date"} -> m' = [m EXCEPT ![e.o] = e.v]
      [] e.o \in {"video", "audio", "track"} ->
            /\ Need(AddTrackOk(m, e.num, e.n), [refused |-> e.n = 0, asked |-> e.num, got |-> e.n])
            /\ Need(e.n = 0 \/ (e.uid # "0" /\ \A i \in DOMAIN m.tracks : m.tracks[i].f.uid # e.uid), "track UID not unique")
            /\ m' = AddTrack(m, e.o, e.n, e.uid, e.defs)
      [] e.o = "set" -> /\ Need((e.r = "1") = Accepts(e.f, e.v), [setter |-> e.f, value |-> e.v, ret |-> e.r])
                        /\ m' = SetField(m, e.t, e.f, e.v)
      [] e.o = "enc" -> /\ Need((e.r = "1") = (e.v # "s"), [enc |-> e.v, ret |-> e.r])
                        /\ m' = AddEnc(m, e.t, e.v)
      [] e.o = "colour" -> /\ Need(e.r = "1", "SetColour refused")
                           /\ m' = [m EXCEPT !.tracks[e.t].colour = e.c]
      [] e.o = "proj" -> /\ Need(e.r = "1", [projection |-> e.r, called_with |-> e.bad])
                         /\ m' = [m EXCEPT !.tracks[e.t].proj = e.p]
      [] e.o = "chapter" -> /\ Need(e.r = "1", "AddChapter refused")
                            /\ m' = [m EXCEPT !.chapters = Append(@, NewChapter(e.uid))]
      [] e.o = "ch" -> /\ Need(e.r = "1", "chapter setter refused")
                       /\ m' = IF e.f = "disp" THEN [m EXCEPT !.chapters[Len(m.chapters)].disp = Append(@, e.v)]
                               ELSE IF e.f = "time" THEN [m EXCEPT !.chapters[Len(m.chapters)].start = e.v[1],
                                                                   !.chapters[Len(m.chapters)].stop = e.v[2]]
                               ELSE [m EXCEPT !.chapters[Len(m.chapters)] = [@ EXCEPT ![e.f] = e.v]]
      [] e.o = "tag" -> /\ Need(e.r = "1", "AddTag refused")
                        /\ m' = [m EXCEPT !.tags = Append(@, <<>>)]
      [] e.o = "st" -> /\ Need(e.r = "1", "add_simple_tag refused")
                       /\ m' = [m EXCEPT !.tags[Len(m.tags)] = Append(@, e.v)]
      [] e.o = "go" -> /\ Need((e.r = "1") = Writable(m), [writing |-> e.r, writable |-> Writable(m)])
                       /\ e.r = "1" => Views("mkv", Traces[tid].mkv) /\ Views("wp", Traces[tid].wp)
                       /\ m' = m

Next == /\ k <= Len(Ev)
        /\ Apply(Ev[k])
        /\ k' = k + 1
        /\ UNCHANGED <<tid, done>>
Spec == Init /\ [][Next]_vars
=============================================================================
