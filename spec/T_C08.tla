-------------------------------- MODULE T_C08 -------------------------------
EXTENDS TraceBase, LineMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (IF K = "slope" THEN Zero ELSE P)
Step(e) == CASE K = "line" -> LineStep(e) [] K = "slope" -> SlopeStep(e) [] K = "hull" -> HullStep(e) [] K = "rows" -> RowStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
