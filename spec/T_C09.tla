-------------------------------- MODULE T_C09 -------------------------------
EXTENDS TraceBase, BitMachine
Init == sid \in 1..NSessions /\ pos = 1 /\ st = (IF K = "bits" THEN P ELSE IF P = <<>> THEN P ELSE P[1])
Step(e) == CASE K = "bits" -> BitStep(e) [] K = "bv" -> BvStep(e) [] K = "wav" -> WavStep(e) [] K = "trie" -> TrieStep(e) [] K = "word" -> WordStep(e)
Next == (Consume /\ Step(Ev)) \/ Done
Spec == Init /\ [][Next]_tvars
=============================================================================
