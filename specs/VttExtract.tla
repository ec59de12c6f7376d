----------------------------- MODULE VttExtract -----------------------------
(* What the WebVTT extraction tool makes of a file, whoever wrote it.
   A document is [u, ext, tracks, eds, blocks]: u the tick in tenths of a millisecond; ext whether the
   name of the file has an extension; tracks [n, kind] with kind "" for a track without WebVTT;
   eds the sequence of chapter editions (<<>> with nochap TRUE if there is no chapters element), an
   edition a sequence of atoms [uid, a, b, disp] with displays [str, lang]; blocks [trk, t, d, data].
   Texts are byte sequences.  The outcome is the exit status and the bytes of every file. *)
EXTENDS WebVtt, TLC
Ascii(n) == n + 48
Two(n) == <<Ascii(n \div 10), Ascii(n % 10)>>
Three(n) == <<Ascii(n \div 100), Ascii((n \div 10) % 10), Ascii(n % 10)>>
\* x in tenths of a millisecond; a time is cut to whole milliseconds
Clock(x) ==
  LET ms == x \div 10  sec == ms \div 1000  min == sec \div 60  hr == min \div 60
  IN (IF hr > 0 THEN Two(hr) \o <<Colon>> ELSE <<>>) \o Two(min % 60) \o <<Colon>> \o Two(sec % 60) \o <<Dot>> \o Three(ms % 1000)
Arrow3 == <<32, 45, 45, 62, 32>>
NL(s) == s \o <<LF>>
Flat(ls) == FoldLeft(LAMBDA acc, l : acc \o NL(l), <<>>, ls)
None == [ok |-> FALSE, txt |-> <<>>]

\* lines up to the first empty one; at least one
Payload(d, p) == LET x == TLCEval(PayloadLines(d, 0, p, <<>>)) IN [ok |-> x.st = 0, txt |-> Flat(x.pay)]

\* A block of a WebVTT track: identifier line, settings line, text
CueOf(b, u) ==
  LET g1 == TLCEval(GetLine(b.data, 0, 1))
      g2 == TLCEval(GetLine(b.data, 0, g1.p))
      p == Payload(b.data, g2.p)
  IN IF g1.st # 0 \/ g2.st # 0 \/ ~p.ok THEN None
     ELSE [ok |-> TRUE,
           txt |-> <<LF>> \o (IF g1.ln = <<>> THEN <<>> ELSE NL(g1.ln))
                   \o NL(Clock(b.t * u) \o Arrow3 \o Clock((b.t + b.d) * u) \o (IF g2.ln = <<>> THEN <<>> ELSE <<32>> \o g2.ln))
                   \o p.txt]
Eng == <<101, 110, 103>>
\* A chapter; one without a title is left out
ChapterOf(x, u) ==
  IF x.disp = <<>> THEN [ok |-> TRUE, txt |-> <<>>]
  ELSE LET y == x.disp[1]
           p == Payload(y.str, 1)
       IN IF Len(x.disp) > 1 \/ y.lang \notin {<<>>, Eng} \/ x.a < 0 \/ x.b < 0 \/ ~p.ok THEN None
          ELSE [ok |-> TRUE, txt |-> <<LF>> \o (IF x.uid = <<>> THEN <<>> ELSE NL(x.uid)) \o NL(Clock(x.a * u) \o Arrow3 \o Clock(x.b * u)) \o p.txt]

Header == NL(Sig)
\* all of `cs`, or nothing
Join(cs0) == LET cs == TLCEval(cs0) IN
  IF \A i \in 1..Len(cs) : cs[i].ok THEN TLCEval([ok |-> TRUE, txt |-> FoldLeft(LAMBDA acc, c : acc \o c.txt, Header, cs)]) ELSE None
Vtt(doc) == SelectSeq(doc.tracks, LAMBDA t : t.kind # "")
NameOf(doc, t) == t.kind \o (IF Len(SelectSeq(doc.tracks, LAMBDA x : x.kind = t.kind)) > 1 THEN ToString(t.n) ELSE "")
Blocks(doc, n) == SelectSeq(doc.blocks, LAMBDA b : b.trk = n)
TrackFile(doc, t) == LET bs == TLCEval(Blocks(doc, t.n))
                          x == Join([i \in 1..Len(bs) |-> CueOf(bs[i], doc.u)])
                      IN [name |-> NameOf(doc, t), ok |-> x.ok, txt |-> x.txt]
ChapterFile(doc) ==
  LET x == (IF doc.eds = <<>> THEN [ok |-> TRUE, txt |-> Header] ELSE IF Len(doc.eds) > 1 THEN None
                            ELSE Join([i \in 1..Len(doc.eds[1]) |-> ChapterOf(doc.eds[1][i], doc.u)]))
  IN [name |-> "CHAPTERS", ok |-> x.ok, txt |-> x.txt]
Files(doc) == (IF doc.nochap THEN <<>> ELSE <<ChapterFile(doc)>>) \o [i \in 1..Len(Vtt(doc)) |-> TrackFile(doc, Vtt(doc)[i])]
\* exit status and files
Extraction(doc) ==
  LET fs == TLCEval(Files(doc)) IN
  IF fs # <<>> /\ doc.ext /\ doc.webm /\ \A i \in 1..Len(fs) : fs[i].ok THEN [rc |-> 0, files |-> fs] ELSE [rc |-> 1, files |-> <<>>]
=============================================================================
