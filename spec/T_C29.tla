-------------------------------- MODULE T_C29 -------------------------------
EXTENDS TraceBase, UtilMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = UtilInit(K, P)
Next == (Consume /\ UtilNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
