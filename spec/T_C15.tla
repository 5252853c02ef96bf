-------------------------------- MODULE T_C15 -------------------------------
EXTENDS TraceBase, PathMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (CASE K \in {"bfs", "cbfs"} -> BfsInit(P) [] K = "seg" -> [n |-> P[1], ord |-> <<>>] [] OTHER -> 0)
Step(e) == CASE K = "bfs" -> BfsStep(e, FALSE) [] K = "cbfs" -> BfsStep(e, TRUE) [] K = "sssp" -> SsspStep(e) [] K = "minmax" -> MinMaxStep(e) [] K = "seg" -> SegStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
