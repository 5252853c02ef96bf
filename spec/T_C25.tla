-------------------------------- MODULE T_C25 -------------------------------
EXTENDS TraceBase, GeoMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = GeoInit(K, P)
Next == (Consume /\ GeoNext(K, P, Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
