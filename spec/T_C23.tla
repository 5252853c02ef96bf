-------------------------------- MODULE T_C23 -------------------------------
EXTENDS TraceBase, PolyMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = PolInit(K, P)
Next == (Consume /\ PolNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
