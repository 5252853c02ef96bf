-------------------------------- MODULE T_C12 -------------------------------
EXTENDS TraceBase, LinkCutMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = LcInit(P[1])
Step(e) == LinkCutStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
