-------------------------------- MODULE T_C22 -------------------------------
EXTENDS TraceBase, LinMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = LinInit(K, P)
Next == (Consume /\ LinNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
