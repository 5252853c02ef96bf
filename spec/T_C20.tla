-------------------------------- MODULE T_C20 -------------------------------
EXTENDS TraceBase, ModMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (CASE K \in {"mod", "fac"} -> <<"0", "0", "0">> [] K = "bz" -> <<"none", "none", "none", "none">> [] K = "sbt" -> <<>> [] OTHER -> 0)
Step(e) == CASE K = "mod" -> ModStep(e, P[1]) [] K = "mont" -> MontStep(e, P[1], P[2]) [] K = "ask" -> AskStep(e) [] K = "bz" -> BzStep(e, P[1], P[2], P[3])
             [] K = "fac" -> FacStep(e, P[1]) [] K = "rat" -> RatStep(e) [] K = "sbt" -> SbtStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
