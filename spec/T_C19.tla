-------------------------------- MODULE T_C19 -------------------------------
EXTENDS TraceBase, NumMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = 0
Next == (Consume /\ NumNext(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
