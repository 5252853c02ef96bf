-------------------------------- MODULE T_C18 -------------------------------
EXTENDS TraceBase, StrMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (CASE K = "str" -> 0 [] K = "ed" -> P [] OTHER -> P[1])
Step(e) == CASE K = "str" -> StrStep(e) [] K = "pat" -> PatStep(e) [] K = "pal" -> PalStep(e) [] K = "sam" -> SamStep(e) [] K = "ed" -> EdStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
