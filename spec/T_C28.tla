-------------------------------- MODULE T_C28 -------------------------------
EXTENDS TraceBase, ZddMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = ZddInit(K, P)
Next == (Consume /\ ZddNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
