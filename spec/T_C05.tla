-------------------------------- MODULE T_C05 -------------------------------
EXTENDS TraceBase, MapMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = P
Step(e) == CASE K = "map" -> MapStep(e) [] K = "iset" -> ISetStep(e) [] K = "rset" -> RSetStep(e) [] K = "rcom" -> RComStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
