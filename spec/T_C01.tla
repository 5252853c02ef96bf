-------------------------------- MODULE T_C01 -------------------------------
EXTENDS TraceBase, SeqMachine, GridMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = P[1]
Step(e) == CASE K = "seq" -> SeqStep(e)
             [] K = "num" -> NumStep(e)
             [] K = "band" -> BandStep(e)
             [] K = "wseg" -> WSegStep(e)
             [] K = "grid" -> GridStep(e)
             [] K = "cube" -> CubeStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
