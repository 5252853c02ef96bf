---- MODULE MC_Num ----
(* Arithmetic functions: the classical identities tie the definitions used. *)
EXTENDS NumMachine
Sum(S, f(_)) == LET q == SetToSeq(S) IN SumSeq([i \in DOMAIN q |-> f(q[i])])
ASSUME \A n \in 1..60 : Sum(Divs(n), MuI) = (IF n = 1 THEN 1 ELSE 0)
ASSUME \A n \in 1..60 : Sum(Divs(n), PhiI) = n
ASSUME \A n \in 1..60 : PrimeI(n) = BIsPrime(n) /\ BInt(BPhi(n)) = PhiI(n)
ASSUME \A a, b \in 1..30 : GcdI(a, b) = BInt(BGcd(a, b))
ASSUME \A n \in 2..40 : \A a \in 1..n : GcdI(a, n) = 1 => BEq(BPowMod(a, LamI(n), n), BMod(1, n))
ASSUME \A x \in 0..200 : \A k \in 1..4 : \A r \in 0..201 : IsFloorRoot(x, k, r) = (r ^ (IF r > 20 THEN 1 ELSE k) <= x /\ x < (r + 1) ^ (IF r > 20 THEN 1 ELSE k) /\ (r <= 20 \/ k = 1))
Init == st = 0
Next == UNCHANGED st
====
