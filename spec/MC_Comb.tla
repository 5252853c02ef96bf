---- MODULE MC_Comb ----
(* Counting functions against enumeration of the objects they count.        *)
EXTENDS CombMachine
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
RECURSIVE Orbit(_, _, _)
Orbit(f, x, S) == IF x \in S THEN S ELSE Orbit(f, f[x], S \cup {x})
Cycles(f) == Cardinality({Orbit(f, x, {}) : x \in DOMAIN f})
Blocks(f) == Cardinality({f[i] : i \in DOMAIN f})
Growth(n) == {f \in [1..n -> 1..n] : \A i \in 1..n : f[i] <= 1 + (IF i = 1 THEN 0 ELSE Max({f[j] : j \in 1..(i - 1)}))}
ASSUME \A n \in 1..5 : \A k \in 0..n : BEq(S1Row(n)[k + 1], Cardinality({f \in Perms(n) : Cycles(f) = k}))
ASSUME \A n \in 1..5 : \A k \in 0..n : BEq(S2Row(n)[k + 1], Cardinality({f \in Growth(n) : Blocks(f) = k}))
ASSUME \A n \in 0..6 : \A k \in 0..n : BEq(BinRow(n)[k + 1], Cardinality({S \in SUBSET (1..n) : Cardinality(S) = k})) /\ BEq(Binom(n, k), BinRow(n)[k + 1])
ASSUME \A n \in 1..5 : \A k \in 0..(n - 1) : BEq(EulRow(n)[k + 1], Cardinality({f \in Perms(n) : Cardinality({i \in 1..(n - 1) : f[i] < f[i + 1]}) = k}))
ASSUME \A n \in 0..6 : BEq(Fact(n), Cardinality(Perms(n))) \/ n > 5
Init == st = 0
Next == UNCHANGED st
====
