-------------------------------- MODULE T_C13 -------------------------------
EXTENDS TraceBase, TreeMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (IF K = "tree" THEN TreeInit(P) ELSE {})
Step(e) == CASE K = "tree" -> TreeStep(e) [] K = "bigtree" -> BigTreeStep(e) [] K = "iso" -> IsoStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
