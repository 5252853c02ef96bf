-------------------------------- MODULE T_C02 -------------------------------
EXTENDS TraceBase, SeqMachine, GridMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = P[1]
Step(e) == CASE K = "num" -> NumStep(e)
             [] K = "grid" -> GridStep(e)
             [] K = "cube" -> CubeStep(e)
             [] K = "plane" -> PlaneStep(e)
             [] K = "planem" -> PlaneMStep(e)
             [] K = "log" -> LogStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
