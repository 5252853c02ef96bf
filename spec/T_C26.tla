-------------------------------- MODULE T_C26 -------------------------------
EXTENDS TraceBase, CombMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = CombInit(K, P)
Next == (Consume /\ CombNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
