-------------------------------- MODULE T_C27 -------------------------------
EXTENDS TraceBase, BigintMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = BigInit(K, P)
Next == (Consume /\ BigNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
