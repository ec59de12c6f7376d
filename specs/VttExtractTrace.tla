-------------------------- MODULE VttExtractTrace --------------------------
(* Runs of the extraction tool: the document (with the number of blocks wholly inside the file and
   whether the file was cut), then the outcome and the files, byte by byte. *)
EXTENDS VttExtract, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, k, err
vars == <<tid, k, err>>
Tr == Traces[tid]
Init == tid \in 1..Len(Traces) /\ k = 0 /\ err = ""
Doc == Tr.doc
e == Tr.ev[k + 1]
SameFiles(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(want) : \E j \in 1..Len(got) : got[j].name = want[i].name /\ got[j].txt = want[i].txt
\* the file as it is
OnRun == LET x == TLCEval(Extraction(Doc)) IN
  err' = IF e.rc # x.rc THEN "exit status" ELSE IF x.rc = 0 /\ ~SameFiles(e.files, x.files) THEN "files" ELSE ""
\* the file cut: the run fails, or tells what the first blocks say, at least those of the clusters that
\* are wholly there and none that is not
OnCut ==
  err' = IF e.rc = 0 /\ ~(\E m \in e.whole..e.left : LET x == TLCEval(Extraction([Doc EXCEPT !.blocks = SubSeq(@, 1, m)]))
                                                    IN x.rc = 0 /\ SameFiles(e.files, x.files))
         THEN "files of a cut document" ELSE ""
\* bytes of the file changed: the run ends by itself
OnDamage == err' = IF e.rc \in {0, 1} THEN "" ELSE "exit status"
Next == /\ err = "" /\ k < Len(Tr.ev) /\ k' = k + 1 /\ UNCHANGED tid
        /\ CASE e.o = "run" -> OnRun [] e.o = "cut" -> OnCut [] OTHER -> OnDamage
Accept == IF err # "" THEN PrintT("REJECT " \o ToJson([t |-> tid, k |-> k, e |-> err]))
          ELSE IF k = Len(Tr.ev) THEN PrintT("ACCEPT " \o ToJson([t |-> tid])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
