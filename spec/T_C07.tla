-------------------------------- MODULE T_C07 -------------------------------
EXTENDS TraceBase, QueueMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = P
Step(e) == CASE K = "pq" -> PQStep(e) [] K = "psum" -> PSumStep(e) [] K = "agg" -> AggStep(e) [] K = "win" -> WinStep(e) [] K = "cart" -> CartStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
