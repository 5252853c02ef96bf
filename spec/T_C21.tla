-------------------------------- MODULE T_C21 -------------------------------
EXTENDS TraceBase, LatMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = LatInit(K, P)
Next == (Consume /\ LatNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
