-------------------------------- MODULE T_C14 -------------------------------
EXTENDS TraceBase, TreeAggMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (CASE K = "contour" -> AggInit(P) [] K = "reroot" -> 0 [] K = "top" -> TopInit(P))
Step(e) == CASE K = "contour" -> ContourStep(e) [] K = "reroot" -> RerootStep(e) [] K = "top" -> TopStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
