-------------------------------- MODULE T_C03 -------------------------------
EXTENDS TraceBase, VersionMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = P[1]
Step(e) == CASE K = "vseq" -> VSeqStep(e) [] K = "vdual" -> VDualStep(e) [] K = "vuf" -> VUFStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
