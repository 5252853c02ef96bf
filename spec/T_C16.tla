-------------------------------- MODULE T_C16 -------------------------------
EXTENDS TraceBase, StructMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (CASE K = "low" -> [n |-> P[1], E |-> <<>>] [] K = "euler" -> [n |-> P[1], E |-> <<>>, dir |-> P[2]] [] K = "fg" -> Fn(P[1]) [] K = "csr" -> CsrInit(P) [] OTHER -> 0)
Step(e) == CASE K = "low" -> LowStep(e) [] K = "order" -> OrderStep(e) [] K = "euler" -> EulerStep(e) [] K = "fg" -> FgStep(e) [] K = "tw" -> TwStep(e) [] K = "csr" -> CsrStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
