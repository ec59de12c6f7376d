--------------------------- MODULE MCVttExtract ---------------------------
(* All documents of at most MaxBlocks cue blocks with texts over a small alphabet: what is extracted is
   a WebVTT file that holds exactly the cues of the blocks, or the extraction fails. *)
EXTENDS VttMux, TLC
X == INSTANCE VttExtract
CONSTANTS MaxBlocks, MaxText
VARIABLES doc
Init == doc = [u |-> 10, ext |-> TRUE, webm |-> TRUE, nochap |-> TRUE, eds |-> <<>>, tracks |-> <<[n |-> 1, kind |-> "METADATA"], [n |-> 2, kind |-> "CAPTIONS"]>>, blocks |-> <<>>]
Alpha == {10, 13, 97}
Texts == UNION {[1..n -> Alpha] : n \in 0..MaxText}
Next == /\ Len(doc.blocks) < MaxBlocks
        /\ \E x \in Texts, trk \in 1..2, t \in {61001}, d \in {0, 1} :
             doc' = [doc EXCEPT !.blocks = Append(@, [trk |-> trk, t |-> t + (IF @ = <<>> THEN 0 ELSE @[Len(@)].t), d |-> d, data |-> x])]
Spec == Init /\ [][Next]_doc
\* the lines of a block
Lines(d) == LET RECURSIVE L(_, _) L(p, acc) == LET g == GetLine(d, 0, p) IN IF g.st # 0 THEN acc ELSE L(g.p, Append(acc, g.ln)) IN L(1, <<>>)
\* parsing what was extracted gives the cues of the blocks back (if they have no settings, whose form is not checked)
Faithful ==
  LET x == TLCEval(X!Extraction(doc)) IN
  (x.rc = 0 /\ \A i \in 1..Len(doc.blocks) : Lines(doc.blocks[i].data)[2] = <<>>) => \A i \in 1..2 :
    LET f == x.files[i]
        bs == X!Blocks(doc, doc.tracks[i].n)
        q == TLCEval(FileCues(f.txt))
    IN /\ f.name = doc.tracks[i].kind /\ q.ok /\ Len(q.cs) = Len(bs)
       /\ \A j \in 1..Len(bs) : q.cs[j].a = bs[j].t /\ q.cs[j].b = bs[j].t + bs[j].d /\ InTime(q.cs)
\* a block fails the extraction exactly when it has no third line
Refused == (X!Extraction(doc).rc = 1) = \E i \in 1..Len(doc.blocks) : LET l == Lines(doc.blocks[i].data) IN Len(l) < 3 \/ l[3] = <<>>
=============================================================================
