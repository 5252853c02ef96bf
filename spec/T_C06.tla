-------------------------------- MODULE T_C06 -------------------------------
EXTENDS TraceBase, PartitionMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = PInit(P[1], IF K = "ufv" THEN P[2] ELSE <<>>)
Next == (Consume /\ PartitionStep(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
