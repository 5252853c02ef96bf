-------------------------------- MODULE T_C04 -------------------------------
EXTENDS TraceBase, DSeqMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = P[1]
Step(e) == CASE K = "dseq" -> DSeqStep(e) [] K = "kseq" -> KSeqStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
