-------------------------------- MODULE T_C30 -------------------------------
EXTENDS TraceBase, TextMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = TextInit(K, P)
Next == (Consume /\ TextNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
