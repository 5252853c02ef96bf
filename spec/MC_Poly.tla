---- MODULE MC_Poly ----
(* Polynomial operators against their definitions, over GF(5) exhaustively. *)
EXTENDS PolyMachine
P == 5
Polys == UNION {[1..n -> 0..2] : n \in 0..3}
C(f, i) == IF i \in 0..(Len(f) - 1) THEN f[i + 1] ELSE 0
ASSUME \A f, g \in Polys : \A k \in 0..5 : C(PMul(f, g, P), k) = SumSeq([i \in 1..(k + 1) |-> C(f, i - 1) * C(g, k - i + 1)]) % P
ASSUME \A f, g \in Polys : Trim(g) # <<>> => LET r == PRem(f, g, P) IN Deg(r) < Deg(g)
ASSUME \A f \in Polys : \A x \in 0..4 : PEval(f, x, P) = SumSeq([i \in 1..Len(f) |-> f[i] * (IF i = 1 THEN 1 ELSE x ^ (i - 1))]) % P
ASSUME \A f, g \in Polys : C(g, 0) # 0 => LET s == Ser(f, g, 5, P) IN \A k \in 0..4 : C(PMul(s, g, P), k) = C(f, k)
ASSUME \A f, g \in Polys : C(g, 0) # 0 /\ Trim(g) # <<>> => \A k \in 0..6 : CoefPQ(Trim(f), Trim(g), k, P) = Ser(f, g, k + 1, P)[k + 1]
ASSUME \A f \in Polys : \A g \in {x \in Polys : C(x, 0) = 0} : \A x \in 0..4 : Len(f) <= 2 /\ Len(g) <= 2 => PEval(Comp(f, g, 5, P), x, P) = PEval(f, PEval(g, x, P), P)
ASSUME \A f \in Polys : Len(f) = 3 => \A t \in 0..4 : Lagr(<<0, 1, 2>>, [i \in 1..3 |-> PEval(f, i - 1, P)], t, P) = PEval(f, t, P)
ASSUME \A f \in Polys : \A r \in {1, 2, 4} : \A c \in 0..4 : ProdRkD(f, r, c, 4, P) = ProdRk(f, r, c, 4, P)
Init == st = 0
Next == UNCHANGED st
====
