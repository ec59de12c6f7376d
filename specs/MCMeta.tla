------------------------------- MODULE MCMeta -------------------------------
(* Track numbering explored exhaustively: every sequence of requests, every    *)
(* number the specification lets the muxer choose.  The requests are printed   *)
(* and replayed into the muxer.                                                *)
EXTENDS Meta, Json
CONSTANT Depth, Reqs
VARIABLES m, h
vars == <<m, h>>
Init == m = InitMeta /\ h = <<>>
Choices == 0..127
Next == /\ Len(h) < Depth
        /\ \E q \in Reqs : /\ h' = Append(h, q)
                           /\ \E n \in (IF q = 0 THEN {0} \cup {x \in 1..6 : TRUE} \cup {126, 127} ELSE {0, q}) :
                                /\ AddTrackOk(m, q, n)
                                /\ m' = AddTrack(m, "audio", n, ToString(Len(h) + 1), [type |-> "2"])
        /\ (Len(h') = Depth => PrintT("H " \o ToJson(h')))
Spec == Init /\ [][Next]_vars
Unique == \A i, j \in DOMAIN m.tracks : i # j => m.tracks[i].number # m.tracks[j].number
Range == \A i \in DOMAIN m.tracks : m.tracks[i].number \in TrackNumbers
Requested == \A i \in DOMAIN h : h[i] \in TrackNumbers => h[i] \in Used(m)
=============================================================================
