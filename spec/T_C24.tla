-------------------------------- MODULE T_C24 -------------------------------
EXTENDS TraceBase, OffMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = OffInit(K, P)
Next == (Consume /\ OffNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
