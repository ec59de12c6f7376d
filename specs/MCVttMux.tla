------------------------------ MODULE MCVttMux ------------------------------
(* All sessions with two cue files of at most MaxCues cues each and frames at times 0..MaxT:
   every cue is written exactly once, in the order of its file, and the file is in time order. *)
EXTENDS VttMux, TLC
CONSTANTS MaxT, MaxCues
VARIABLES s, files, last, done
vars == <<s, files, last, done>>
Init == s = NewSession /\ files = <<<<>>, <<>>>> /\ last = -1 /\ done = 0
AddCue == /\ done = 0 /\ last = -1
          /\ \E f \in 1..2, a \in 0..MaxT :
               LET cs == files[f]
                   c == [a |-> a, n |-> Len(cs)] IN
               /\ Len(cs) < MaxCues /\ (IF cs = <<>> THEN TRUE ELSE a >= cs[Len(cs)].a)
               /\ f = 1 => files[2] = <<>>
               /\ files' = [files EXCEPT ![f] = Append(@, c)]
               /\ s' = Load(s, f + 1, <<c>>) /\ UNCHANGED <<last, done>>
PutFrame == /\ done = 0
            /\ \E t \in 0..MaxT : t >= last /\ Len(SelectSeq(s.out, LAMBDA x : x.trk = 1)) < 3
               /\ s' = Frame(s, 1, t) /\ last' = t /\ UNCHANGED <<files, done>>
Finish == done = 0 /\ done' = 1 /\ s' = Flush(s) /\ UNCHANGED <<files, last>>
Next == AddCue \/ PutFrame \/ Finish
Spec == Init /\ [][Next]_vars
TimeOrder == Sorted(s.out) /\ Sorted(s.pend)
Complete == done = 1 => \A f \in 1..2 : Extract(s, f + 1) = files[f]
NothingLate == \A i \in 1..Len(s.pend) : s.pend[i].a > last
=============================================================================
