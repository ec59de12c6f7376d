------------------------------- MODULE MCWebm -------------------------------
(* Every document made of up to MaxTok tokens (mostly headers of unknown size,  *)
(* so that any sequence nests somehow) behind a Segment, with every choice of   *)
(* elements to skip.  The specification's own guarantees are checked, and every *)
(* finished behaviour is printed and replayed into the parser.                  *)
EXTENDS Webm, Json, IOUtils, SequencesExt
CONSTANTS MaxTok

Tokens == <<
  <<31, 67, 182, 117, 255>>,                      \* Cluster, unknown size
  <<31, 67, 182, 117, 131>>,                      \* Cluster of 3 bytes
  <<160, 255>>,                                   \* BlockGroup, unknown size
  <<231, 129, 9>>,                                \* Timecode
  <<163, 134, 129, 0, 1, 128, 7, 8>>,             \* SimpleBlock
  <<161, 136, 129, 0, 1, 6, 1, 129, 7, 8>>,       \* Block, EBML laced
  <<236, 130, 1, 2>>,                             \* Void
  <<191, 129, 3>>,                                \* unknown element
  <<24, 83, 128, 103, 255>>,                      \* Segment, unknown size
  <<18, 84, 195, 103, 255, 115, 115, 255>>,       \* Tags and Tag, unknown size
  <<103, 200, 255>>,                              \* SimpleTag, unknown size
  <<69, 163, 129, 65>>,                           \* TagName
  <<26, 69, 223, 163, 131, 66, 134, 128>>,        \* EBML with an empty version
  <<163, 128>>                                    \* a block that is too small
>>
VARIABLES doc, s, n, skips, opens, out, next
vars == <<doc, s, n, skips, opens, out, next>>

Docs == {<<24, 83, 128, 103, 255>> \o FlattenSeq([i \in 1..Len(q) |-> Tokens[q[i]]]) : q \in UNION {[1..k -> 1..Len(Tokens)] : k \in 0..MaxTok}}
Init == doc \in Docs /\ s = Start(0, FALSE) /\ n = 0 /\ skips = <<>> /\ opens = <<>> /\ out = FALSE /\ next = -1

Begins == {"sgb", "bgb", "clb", "clbe", "blb"}
Ends == [SegmentEnd |-> "SegmentBegin", BlockGroupEnd |-> "BlockGroupBegin", ClusterEnd |-> "ClusterBegin",
         BlockEnd |-> "BlockBegin", SimpleBlockEnd |-> "SimpleBlockBegin"]
May == {"eb"} \cup Begins

Quiet == /\ s.ph \notin Observable \cup Stopped \cup {"badlace"}
         /\ s' = Silent(doc, s)
         /\ next' = IF s.ph = "act" /\ s.askip /\ s.cur.sz # Unk THEN s.cur.pos + s.cur.hs + s.cur.sz ELSE -1
         /\ UNCHANGED <<doc, n, skips, opens, out>>
User == /\ s.ph \in Observable
        /\ \E skip \in IF s.ph \in May THEN BOOLEAN ELSE {FALSE} :
             /\ s.ph \in Consuming => s.p + s.rem <= Len(doc)
             /\ s' = Answer(s, skip, Ok, s.rem)
             /\ skips' = IF skip THEN Append(skips, n) ELSE skips
             /\ LET c == Due(s).c IN
                opens' = IF s.ph \in Begins /\ ~skip THEN Append(opens, c)
                         ELSE IF c \in DOMAIN Ends /\ opens # <<>> /\ opens[Len(opens)] = Ends[c] THEN SubSeq(opens, 1, Len(opens) - 1)
                         ELSE opens
        /\ n' = n + 1 /\ next' = -1
        /\ UNCHANGED <<doc, out>>
Finish == /\ ~out
          /\ s.ph \in Stopped \cup {"badlace"} \/ (s.ph \in Consuming /\ s.p + s.rem > Len(doc))
          /\ out' = TRUE
          /\ PrintT("HIST " \o ToJson([doc |-> doc, skips |-> skips]))
          /\ UNCHANGED <<doc, s, n, skips, opens, next>>
Next == Quiet \/ User \/ Finish
Spec == Init /\ [][Next]_vars

\* An end is only announced for the innermost announced beginning.
Nested == s.ph \in {"sge", "ble"} \/ (s.ph = "done" /\ Top(s).m \in {"Cluster", "BlockGroup"})
          => opens # <<>> /\ opens[Len(opens)] = Ends[Due(s).c]
\* A finished parse closed everything it opened.
Closed == s.ph = "fin" => opens = <<>>
\* The position never leaves the document, and a skipped element ends exactly where it says.
Within == s.p <= Len(doc)
Exact == next # -1 /\ s.ph # "eof" => s.p = next
\* The document's elements: the open ones enclose the position.
Tiled == \A i \in 1..Len(s.stk) : s.stk[i].cap # Inf /\ s.ph \notin Stopped \cup {"val", "badlace"} => s.p <= s.stk[i].cap
=============================================================================
