---- MODULE MC_Lin ----
(* Linear algebra: two independent determinants agree, determinants and     *)
(* ranks behave multiplicatively; every 3x3 matrix over GF(2), 2x2 over GF(3)*)
EXTENDS LinMachine
M3 == [1..3 -> [1..3 -> 0..1]]
M2 == [1..2 -> [1..2 -> 0..2]]
AsSeq(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j]]]
ASSUME \A A \in M3 : DetL(AsSeq(A), 2) = DetE(AsSeq(A), 2) /\ (DetE(AsSeq(A), 2) # 0) = (Rank(AsSeq(A), 2) = 3)
ASSUME \A A \in M2 : DetL(AsSeq(A), 3) = DetE(AsSeq(A), 3) /\ DetL(AsSeq(A), 3) = (A[1][1] * A[2][2] - A[1][2] * A[2][1] + 9) % 3
ASSUME \A A, B \in M2 : DetL(MatMul(AsSeq(A), AsSeq(B), 3), 3) = (DetL(AsSeq(A), 3) * DetL(AsSeq(B), 3)) % 3
\* rank by counting: the null space of A over GF(2) has 2^(3 - rank) vectors
ASSUME \A A \in M3 : Cardinality({x \in [1..3 -> 0..1] : MatVec(AsSeq(A), x, 2) = <<0, 0, 0>>}) = 2 ^ (3 - Rank(AsSeq(A), 2))
ASSUME \A A \in M2 : \A b \in {<<1, 1, 0>>, <<1, 0, 1>>} : MatPowBits(AsSeq(A), b, 3) = MatPow(AsSeq(A), (4 * b[1]) + (2 * b[2]) + b[3], 3)
ASSUME \A A \in M2 : MatPow(AsSeq(A), 3, 3) = MatMul(AsSeq(A), MatMul(AsSeq(A), AsSeq(A), 3), 3)
\* complete graphs have n^(n-2) spanning trees
ASSUME Spanning(3, << <<0, 1>>, <<0, 2>>, <<1, 2>> >>) = 3 /\ Spanning(4, << <<0, 1>>, <<0, 2>>, <<0, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>> >>) = 16
Init == st = 0
Next == UNCHANGED st
====
