------------------------------ MODULE MCWebVtt ------------------------------
(* Design check: for every cue list in a small domain, every line terminator, with and
   without BOM and header text, parsing the rendered text returns exactly that cue list and
   then end of stream.  Every text explored is printed, so that the real parser is run on it. *)
EXTENDS WebVtt, TLC, Json, FiniteSets
S(str) == str
Asc == [c \in {"0","1","2","5","9",":","."," ","-",">","a","b","|"} |->
   CASE c = "0" -> 48 [] c = "1" -> 49 [] c = "2" -> 50 [] c = "5" -> 53 [] c = "9" -> 57 [] c = ":" -> 58
     [] c = "." -> 46 [] c = " " -> 32 [] c = "-" -> 45 [] c = ">" -> 62 [] c = "a" -> 97 [] c = "b" -> 98 [] OTHER -> 124]
T(cs) == [i \in 1..Len(cs) |-> Asc[cs[i]]]
\* time texts with the value they denote
Times == {
  <<T(<<"5">>), <<0,0,5,0>>>>,
  <<T(<<"2","5","9",".","5">>), <<0,4,19,500>>>>,
  <<T(<<"5",":","0","9",".","0","5">>), <<0,5,9,50>>>>,
  <<T(<<"0","0",":","5","9",".","0","0","5">>), <<0,0,59,5>>>>,
  <<T(<<"1","0","0",":","5","9",":","5","9",".","9","9","9">>), <<100,59,59,999>>>>,
  <<T(<<"9","9","9","9">>), <<2,46,39,0>>>> }
Ids == {<<>>, T(<<"a">>), T(<<"-","-","a">>)}
Sets == {<<>>, <<<<T(<<"a">>), T(<<"b">>)>>>>, <<<<T(<<"a","a">>), T(<<"1","2">>)>>, <<T(<<"b">>), T(<<"-">>)>>>>}
Pays == {<<T(<<"a","b">>)>>, <<T(<<" ">>), T(<<"-","-",">">>)>>}
CONSTANT Full
Cues == IF Full THEN [id: Ids, a: Times, b: Times, set: Sets, pay: Pays]
        ELSE [id: Ids, a: {CHOOSE t \in Times : t[2] = <<0,0,59,5>>}, b: {CHOOSE t \in Times : t[2] = <<0,4,19,500>>}, set: Sets, pay: Pays]
Eols == {<<10>>, <<13>>, <<13, 10>>}
RSet(ss) == FoldLeft(LAMBDA acc, s : acc \o <<32>> \o s[1] \o <<58>> \o s[2], <<>>, ss)
RPay(ps, eol) == FoldLeft(LAMBDA acc, l : acc \o l \o eol, <<>>, ps)
RCue(c, eol) == (IF c.id = <<>> THEN <<>> ELSE c.id \o eol) \o c.a[1] \o <<32,45,45,62,32>> \o c.b[1] \o RSet(c.set) \o eol
                \o RPay(c.pay, eol) \o eol
Render(cs, eol, bom, tail) == (IF bom THEN Bom ELSE <<>>) \o Sig \o tail \o eol \o eol
     \o FoldLeft(LAMBDA acc, c : acc \o RCue(c, eol), <<>>, cs)
VARIABLES cues, doc, pos, k, res
vars == <<cues, doc, pos, k, res>>
Init == \E eol \in Eols, bom \in BOOLEAN, tail \in {<<>>, <<32, 120>>} :
        \E cs \in (IF Full THEN {<<c>> : c \in Cues} ELSE {<<c, d>> : c \in Cues, d \in Cues} \union {<<>>}) :
          /\ cues = cs /\ doc = Render(cs, eol, bom, tail) /\ k = 0
          /\ pos = 0 /\ res = 0
Next == /\ res = 0
        /\ UNCHANGED <<cues, doc>>
        /\ k' = k + 1
        /\ IF k = 0 THEN LET x == InitParse(doc, 0) IN pos' = x.p /\ res' = x.st
           ELSE LET x == ParseCue(doc, 0, pos) IN pos' = x.p /\ res' = x.r
Spec == Init /\ [][Next]_vars
CueRight == \* what the next Parse call will deliver is the cue that was written
  (res = 0 /\ k >= 1 /\ k <= Len(cues)) =>
     LET x == ParseCue(doc, 0, pos) c == cues[k]
     IN x.r = 0 /\ x.id = c.id /\ x.a = c.a[2] /\ x.b = c.b[2] /\ x.set = c.set /\ x.pay = c.pay
EndsRight == res # 0 => res = 1 /\ k = Len(cues) + 2
\* a failing reader is never reported as success for the cue being read
Emit == k = 0 => PrintT("DOC " \o ToJson(doc))
=============================================================================
