---- MODULE MC_Str ----
(* Strings over two letters up to length 6: periods and borders, occurrences,*)
(* palindromes and runs.                                                     *)
EXTENDS StrMachine
W == UNION {[1..n -> 1..2] : n \in 1..6}
ASSUME \A s \in W : MinPeriod(s) = Len(s) - BorderLen(s)
ASSUME \A s \in W : IsPal(s) = (s = Reverse(s))
ASSUME \A s \in W : \A t \in W : Len(t) <= 2 => Occ(s, t) = {i \in 0..(Len(s) - 1) : i + Len(t) <= Len(s) /\ SubSeq(s, i + 1, i + Len(t)) = t}
ASSUME \A s \in W : Cardinality(Runs(s)) < Len(s) \/ Len(s) = 1           \* the runs theorem
ASSUME \A s \in W : Cardinality(PalSubs(s)) <= Len(s)                     \* at most one new palindrome per letter
ASSUME \A s, t \in W : (LexLt(s, t) \/ LexLt(t, s) \/ s = t) /\ ~(LexLt(s, t) /\ LexLt(t, s))
Init == st = 0
Next == UNCHANGED st
====
