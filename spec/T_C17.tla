-------------------------------- MODULE T_C17 -------------------------------
EXTENDS TraceBase, OptMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (CASE K = "bm" -> [l |-> P[1], r |-> P[2], E |-> <<>>] [] K = "mst" -> [n |-> P[1], E |-> <<>>, best |-> P[2]] [] K = "psp" -> [ks |-> P[1], terms |-> <<>>] [] OTHER -> 0)
Step(e) == CASE K = "bm" -> BmStep(e) [] K = "set" -> SetStep(e) [] K = "flow" -> FlowStep(e) [] K = "asg" -> AsgStep(e) [] K = "mst" -> MstStep(e) [] K = "psp" -> PspStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
