------------------------------- MODULE VttMux -------------------------------
(* WebVTT cues carried in a WebM file: the tool that muxes audio/video frames of an input file
   together with WebVTT files, and the tool that extracts the WebVTT files again.
   A cue is [trk, a, b, id, set, pay] with times in milliseconds; a frame is [trk, a]. *)
EXTENDS WebVtt

Ms(t) == ((t[1] * 60 + t[2]) * 60 + t[3]) * 1000 + t[4]
RECURSIVE CuesFrom(_, _, _)
CuesFrom(d, p, acc) ==
  LET x == ParseCue(d, 0, p)
  IN IF x.r < 0 THEN [ok |-> FALSE, cs |-> <<>>]
     ELSE IF x.r > 0 THEN [ok |-> TRUE, cs |-> acc]
     ELSE CuesFrom(d, x.p, Append(acc, [a |-> Ms(x.a), b |-> Ms(x.b), id |-> x.id, set |-> x.set, pay |-> x.pay]))
FileCues(d) == LET x == InitParse(d, 0) IN IF x.st < 0 THEN [ok |-> FALSE, cs |-> <<>>] ELSE CuesFrom(d, x.p, <<>>)
\* the muxing tool refuses files whose cues are not in order of their start or end before they start
InTime(cs) == \A i \in 1..Len(cs) : cs[i].b >= cs[i].a /\ (i > 1 => cs[i].a >= cs[i - 1].a)

------------------------------------------------------------------------
(* the session: pend holds the loaded cues in the order in which they will be written,
   out what has been written *)
NewSession == [pend |-> <<>>, out |-> <<>>, chap |-> <<>>]
Before(x, y) == x.a < y.a \/ (x.a = y.a /\ x.trk <= y.trk)
Insert(q, c) == SelectSeq(q, LAMBDA x : Before(x, c)) \o <<c>> \o SelectSeq(q, LAMBDA x : ~Before(x, c))
Load(s, trk, cs) == [s EXCEPT !.pend = FoldLeft(LAMBDA q, c : Insert(q, [trk |-> trk, cue |-> c, a |-> c.a]), @, cs)]
LoadChapters(s, cs) == [s EXCEPT !.chap = cs]
Due(s, t) == SelectSeq(s.pend, LAMBDA x : x.a <= t)
Late(s, t) == SelectSeq(s.pend, LAMBDA x : x.a > t)
Frame(s, trk, t) == [s EXCEPT !.out = @ \o Due(s, t) \o <<[trk |-> trk, cue |-> <<>>, a |-> t]>>, !.pend = Late(s, t)]
Flush(s) == [s EXCEPT !.out = @ \o s.pend, !.pend = <<>>]
OfTrack(q, trk) == SelectSeq(q, LAMBDA x : x.trk = trk)
Extract(s, trk) == [i \in 1..Len(OfTrack(s.out, trk)) |-> OfTrack(s.out, trk)[i].cue]

\* chapters have no settings
Chapter(cs) == [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.set = <<>>]]
Sorted(q) == \A i \in 1..Len(q)-1 : q[i].a <= q[i + 1].a
=============================================================================
