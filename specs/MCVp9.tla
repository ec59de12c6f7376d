------------------------------ MODULE MCVp9 ------------------------------
(* The header syntax as a grammar that writes headers symbol by symbol.  Law:
   Decode returns exactly the values written, and refuses every header that is
   cut short.  Rich names the part of the syntax explored exhaustively; the
   other parts take default values.  Every header is printed and replayed. *)
EXTENDS Vp9, Json, TLC
CONSTANT Parts
VARIABLES rich, todo, bits, e
vars == <<rich, todo, bits, e>>
L(name, n) == <<"lit", name, n>>
N(name) == <<"nt", name, 0>>
Env0 == [prof |-> -1, existing |-> 0, key |-> -1, alt |-> -1, er |-> -1, intra |-> 0, depth |-> -1, cs |-> -1, refresh |-> 0, w |-> -1, h |-> -1,
         dw |-> -1, dh |-> -1, fpm |-> -1, cl |-> 0, rows |-> -1, hi |-> 0, r |-> <<>>, odd |-> FALSE, v |-> 0, feat |-> 0]
Slots == [i \in 1..8 |-> <<16 * i, 8 * i>>]
Default(name) ==
  CASE name = "marker" -> 2 [] name = "type" -> IF "refs" \in rich THEN 1 ELSE 0 [] name = "show" -> 1 [] name = "sync" -> Sync
    [] name \in {"w", "h"} -> 255 [] name = "seg" -> 0 [] OTHER -> 0
Sizes1 == {0, 1, 511, 4095, 4096, 65535}
RichSet(name) ==
  CASE "head" \in rich /\ name \in {"lo", "hi", "existing", "type", "show", "er", "intra", "fpm"} -> {0, 1}
    [] "head" \in rich /\ name = "reserved" -> {0, 1} [] "head" \in rich /\ name = "reset" -> {0, 3}
    [] "head" \in rich /\ name = "marker" -> {0, 1, 2, 3} [] "head" \in rich /\ name = "sync" -> {Sync, Sync + 1, Sync + 65536, Sync - 512}
    [] "colour" \in rich /\ name \in {"lo", "hi", "depth12", "range", "ssx", "ssy", "res", "type", "show", "intra"} -> {0, 1}
    [] "colour" \in rich /\ name = "cs" -> {0, 2, 7}
    [] "size" \in rich /\ name \in {"w", "h"} -> Sizes1 [] "size" \in rich /\ name = "render" -> {0, 1}
    [] "size" \in rich /\ name \in {"dw", "dh"} -> {0, 300}
    [] "tiles" \in rich /\ name = "w" -> {0, 255, 510, 511, 512, 1023, 4095, 4096, 65535}
    [] "tiles" \in rich /\ name \in {"inc", "rowbit", "rowbit2", "er", "fpm"} -> {0, 1}
    [] "tail" \in rich /\ name \in {"lfon", "lfup", "up7", "upq", "er"} -> {0, 1} [] "tail" \in rich /\ name = "val7" -> {85}
    [] "tail" \in rich /\ name = "valq" -> {0, 31}
    [] "seg" \in rich /\ name = "seg" -> {0, 1} [] "seg" \in rich /\ name \in {"mapup", "temporal", "dataup", "prob"} -> {0, 1}
    [] "seg" \in rich /\ name = "probv" -> {129}
    [] "feat" \in rich /\ name \in {"seg", "dataup"} -> {1} [] "feat" \in rich /\ name = "feat" -> {0, 1}
    [] "feat" \in rich /\ name \in {"fv0", "fv1", "fv2"} -> {1}
    [] "refs" \in rich /\ name \in {"found", "render", "type", "show", "er", "switchable"} -> {0, 1}
    [] "refs" \in rich /\ name = "ref" -> {1, 6} [] "refs" \in rich /\ name = "refresh" -> {0, 129}
    [] OTHER -> {Default(name)}
\* one-hot features and at most three probabilities keep the state space small
Choices(name) == IF name = "feat" /\ e.feat >= 2 THEN {0} ELSE IF name = "prob" /\ e.feat >= 3 THEN {0} ELSE RichSet(name)
Put(name, v) ==
  CASE name = "lo" -> [e EXCEPT !.prof = v] [] name = "hi" -> [e EXCEPT !.prof = @ + 2 * v] [] name = "existing" -> [e EXCEPT !.existing = v]
    [] name = "type" -> [e EXCEPT !.key = 1 - v] [] name = "show" -> [e EXCEPT !.alt = 1 - v] [] name = "er" -> [e EXCEPT !.er = v]
    [] name = "intra" -> [e EXCEPT !.intra = v] [] name = "depth12" -> [e EXCEPT !.depth = 10 + 2 * v] [] name = "cs" -> [e EXCEPT !.cs = v]
    [] name = "refresh" -> [e EXCEPT !.refresh = v] [] name = "w" -> [e EXCEPT !.w = v + 1, !.dw = v + 1] [] name = "h" -> [e EXCEPT !.h = v + 1, !.dh = v + 1]
    [] name = "dw" -> [e EXCEPT !.dw = v + 1] [] name = "dh" -> [e EXCEPT !.dh = v + 1] [] name = "fpm" -> [e EXCEPT !.fpm = v]
    [] name = "inc" -> [e EXCEPT !.cl = @ + v, !.v = v] [] name = "rowbit" -> [e EXCEPT !.rows = 1 + v, !.v = v] [] name = "rowbit2" -> [e EXCEPT !.rows = 2 * (1 + v)]
    [] name = "ref" -> [e EXCEPT !.r = Append(@, v)]
    [] name = "res" -> [e EXCEPT !.odd = @ \/ v = 1]
    [] name \in {"feat", "prob"} -> [e EXCEPT !.feat = @ + v, !.v = v]
    [] name = "ssx" -> [e EXCEPT !.v = v] [] name = "ssy" -> [e EXCEPT !.odd = @ \/ (v = 1 /\ e.v = 1)]
    [] OTHER -> [e EXCEPT !.v = v]
Times(n, s) == [i \in 1..(n * Len(s)) |-> s[((i - 1) % Len(s)) + 1]]
Expand(name) ==
  CASE name = "profile3" -> IF e.prof = 3 THEN <<L("reserved", 1)>> ELSE <<>>
    [] name = "shown" -> IF e.existing = 1 THEN <<L("map", 3)>> ELSE <<L("type", 1), L("show", 1), L("er", 1), N("frame")>>
    [] name = "frame" -> IF e.key = 1 THEN <<L("sync", 24), N("colour"), L("w", 16), L("h", 16), L("render", 1), N("render"), N("tail")>>
                         ELSE (IF e.alt = 1 THEN <<L("intra", 1)>> ELSE <<>>) \o (IF e.er = 1 THEN <<>> ELSE <<L("reset", 2)>>) \o <<N("notkey")>>
    [] name = "notkey" -> IF e.intra = 1 THEN <<L("sync", 24)>> \o (IF e.prof = 0 THEN <<N("default")>> ELSE <<N("colour")>>)
                                              \o <<L("refresh", 8), L("w", 16), L("h", 16), L("render", 1), N("render"), N("tail")>>
                          ELSE <<L("refresh", 8)>> \o Times(3, <<L("ref", 3), L("bias", 1)>>) \o <<N("found1")>>
    [] name = "default" -> <<>>
    [] name = "colour" -> (IF e.prof >= 2 THEN <<L("depth12", 1)>> ELSE <<>>) \o <<L("cs", 3), N("cs")>>
    [] name = "cs" -> IF e.cs = 7 THEN (IF e.prof % 2 = 1 THEN <<L("res", 1)>> ELSE <<>>)
                      ELSE <<L("range", 1)>> \o (IF e.prof % 2 = 1 THEN <<L("ssx", 1), L("ssy", 1), L("res", 1)>> ELSE <<>>)
    [] name = "render" -> IF e.v = 1 THEN <<L("dw", 16), L("dh", 16)>> ELSE <<>>
    [] name = "found1" -> <<L("found", 1), N("f1")>>
    [] name = "f1" -> IF e.v = 1 THEN <<N("take1")>> ELSE <<L("found", 1), N("f2")>>
    [] name = "f2" -> IF e.v = 1 THEN <<N("take2")>> ELSE <<L("found", 1), N("f3")>>
    [] name = "f3" -> IF e.v = 1 THEN <<N("take3")>> ELSE <<L("w", 16), L("h", 16), L("render", 1), N("render"), N("inter")>>
    [] name \in {"take1", "take2", "take3"} -> <<L("render", 1), N("render"), N("inter")>>
    [] name = "inter" -> <<L("hp", 1), L("switchable", 1), N("filter"), N("tail")>>
    [] name = "filter" -> IF e.v = 1 THEN <<>> ELSE <<L("raw", 2)>>
    [] name = "tail" -> (IF e.er = 1 THEN <<>> ELSE <<L("rfc", 1), L("fpm", 1)>>) \o
                        <<L("ctx", 2), L("level", 6), L("sharp", 3), L("lfon", 1), N("lf"), L("q", 8)>> \o Times(3, <<L("upq", 1), N("dq")>>)
                        \o <<L("seg", 1), N("seg"), N("tiles")>>
    [] name = "lf" -> IF e.v = 1 THEN <<L("lfup", 1), N("lfup")>> ELSE <<>>
    [] name = "lfup" -> IF e.v = 1 THEN Times(6, <<L("up7", 1), N("v7")>>) ELSE <<>>
    [] name = "v7" -> IF e.v = 1 THEN <<L("val7", 7)>> ELSE <<>>
    [] name = "dq" -> IF e.v = 1 THEN <<L("valq", 5)>> ELSE <<>>
    [] name = "seg" -> IF e.v = 1 THEN <<L("mapup", 1), N("map"), L("dataup", 1), N("data")>> ELSE <<>>
    [] name = "map" -> IF e.v = 1 THEN Times(7, <<L("prob", 1), N("prob")>>) \o <<L("temporal", 1), N("temporal")>> ELSE <<>>
    [] name = "temporal" -> IF e.v = 1 THEN Times(3, <<L("prob", 1), N("prob")>>) ELSE <<>>
    [] name = "prob" -> IF e.v = 1 THEN <<L("probv", 8)>> ELSE <<>>
    [] name = "data" -> IF e.v = 1 THEN <<L("abs", 1)>> \o Times(8, <<L("feat", 1), N("fv0"), L("feat", 1), N("fv1"), L("feat", 1), N("fv2"), L("feat", 1)>>) ELSE <<>>
    [] name = "fv0" -> IF e.v = 1 THEN <<L("fv0", 9)>> ELSE <<>>
    [] name = "fv1" -> IF e.v = 1 THEN <<L("fv1", 7)>> ELSE <<>>
    [] name = "fv2" -> IF e.v = 1 THEN <<L("fv2", 2)>> ELSE <<>>
    [] name = "tiles" -> <<N("inc0"), L("rowbit", 1), N("row2")>>
    [] name = "inc0" -> IF MaxLog2(SbCols(e.w)) > MinLog2(SbCols(e.w)) THEN <<L("inc", 1), N("inc")>> ELSE <<>>
    [] name = "inc" -> IF e.v = 1 /\ MinLog2(SbCols(e.w)) + e.cl < MaxLog2(SbCols(e.w)) THEN <<L("inc", 1), N("inc")>> ELSE <<>>
    [] name = "row2" -> IF e.v = 1 THEN <<L("rowbit2", 1)>> ELSE <<>>
\* what a nonterminal fixes without writing bits
Note(name) ==
  CASE name = "default" -> [e EXCEPT !.depth = 8, !.cs = 1]
    [] name = "colour" -> IF e.prof < 2 THEN [e EXCEPT !.depth = 8] ELSE e
    [] name = "cs" -> IF e.cs = 7 /\ e.prof % 2 = 0 THEN [e EXCEPT !.odd = TRUE] ELSE e
    [] name = "take1" -> LET s == Slots[e.r[1] + 1] IN [e EXCEPT !.w = s[1], !.h = s[2], !.dw = s[1], !.dh = s[2]]
    [] name = "take2" -> LET s == Slots[e.r[2] + 1] IN [e EXCEPT !.w = s[1], !.h = s[2], !.dw = s[1], !.dh = s[2]]
    [] name = "take3" -> LET s == Slots[e.r[3] + 1] IN [e EXCEPT !.w = s[1], !.h = s[2], !.dw = s[1], !.dh = s[2]]
    [] name = "tail" -> IF e.er = 1 THEN [e EXCEPT !.fpm = 1, !.feat = 0] ELSE [e EXCEPT !.feat = 0]
    [] name = "data" -> [e EXCEPT !.feat = 0]
    [] OTHER -> e
Init == rich \in Parts /\ todo = <<L("marker", 2), L("lo", 1), L("hi", 1), N("profile3"), L("existing", 1), N("shown")>> /\ bits = <<>> /\ e = Env0
ValBits(v, n) == [i \in 1..n |-> (v \div (2 ^ (n - i))) % 2]
Next == /\ todo # <<>> /\ UNCHANGED rich
        /\ LET s == Head(todo) IN
           IF s[1] = "lit"
           THEN \E v \in Choices(s[2]) :
                  /\ bits' = bits \o ValBits(v, s[3])
                  /\ e' = IF (s[2] = "marker" /\ v # 2) \/ (s[2] = "sync" /\ v # Sync) \/ (s[2] = "reserved" /\ v = 1) THEN [e EXCEPT !.hi = 1] ELSE Put(s[2], v)
                  /\ todo' = SubSeq(todo, 2, Len(todo))
           ELSE bits' = bits /\ todo' = Expand(s[2]) \o SubSeq(todo, 2, Len(todo)) /\ e' = Note(s[2])
\* the header as bytes, padded with zero bits
Bytes == [i \in 1..((Len(bits) + 7) \div 8) |->
            LET B(k) == IF 8 * (i - 1) + k <= Len(bits) THEN bits[8 * (i - 1) + k] ELSE 0
            IN  128 * B(1) + 64 * B(2) + 32 * B(3) + 16 * B(4) + 8 * B(5) + 4 * B(6) + 2 * B(7) + B(8)]
Done == todo = <<>>
Law == Done =>
  LET d == Decode(Bytes, Slots) IN
  IF e.hi = 1 THEN d.v = "bad"
  ELSE /\ d.v = (IF e.odd THEN "odd" ELSE "ok")
       /\ d.prof = e.prof /\ d.existing = (e.existing = 1)
       /\ e.existing = 0 => /\ d.key = e.key /\ d.alt = e.alt /\ d.er = e.er /\ d.depth = e.depth /\ d.cs = e.cs /\ d.refresh = e.refresh
                            /\ d.w = e.w /\ d.h = e.h /\ d.dw = e.dw /\ d.dh = e.dh /\ d.fpm = e.fpm
                            /\ d.cols = 2 ^ (MinLog2(SbCols(e.w)) + e.cl) /\ d.rows = e.rows
Cut == Done => Decode(SubSeq(Bytes, 1, Len(Bytes) - 1), Slots).v = "bad"
Show == Done => PrintT("F " \o ToJson([b |-> Bytes, r |-> rich]))
Spec == Init /\ [][Next]_vars
=============================================================================
