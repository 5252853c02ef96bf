---- MODULE MC_Big ----
(* The wide-integer operators agree with TLC's integers on small values and *)
(* satisfy the defining identities on large ones.                           *)
EXTENDS Integers, Sequences, Big
R == -9..9
N(x) == BStr(x)
Tr(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
ASSUME \A a, b \in R : BAdd(a, b) = N(a + b) /\ BSub(a, b) = N(a - b) /\ BMul(a, b) = N(a * b) /\ BLt(a, b) = (a < b) /\ BLe(a, b) = (a <= b) /\ BEq(a, N(b)) = (a = b)
ASSUME \A a \in R : \A b \in 1..9 : BDiv(a, b) = N(a \div b) /\ BMod(a, b) = N(a % b)
ASSUME \A a \in R : \A b \in R \ {0} : BQuo(a, b) = N(Tr(a, b)) /\ BRem(a, b) = N(a - b * Tr(a, b))
ASSUME \A a \in R : \A k \in 1..6 : BPow(a, k) = N(a ^ k) /\ BInt(BPow(a, k)) = a ^ k /\ BPow(a, 0) = "1"
ASSUME \A a, b \in 0..40 : LET g == BInt(BGcd(a, b)) IN (a = 0 /\ b = 0 /\ g = 0) \/ (g > 0 /\ a % g = 0 /\ b % g = 0 /\ \A d \in (g + 1)..41 : a % d # 0 \/ b % d # 0)
ASSUME \A a \in 0..400 : LET s == BInt(BSqrt(a)) IN s * s <= a /\ a < (s + 1) * (s + 1)
ASSUME \A p \in 0..200 : BIsPrime(p) = (p >= 2 /\ \A d \in 2..(p - 1) : p % d # 0)
ASSUME \A a \in 0..20 : \A e \in 0..12 : \A m \in 1..13 : BPowMod(a, e, m) = BMod(BPow(a, e), m)
ASSUME \A m \in 2..30 : \A a \in 1..(m - 1) : BEq(BGcd(a, m), 1) => BMod(BMul(a, BModInv(a, m)), m) = "1"
ASSUME \A n \in 1..60 : BInt(BPhi(n)) = Len(SelectSeq([i \in 1..n |-> i], LAMBDA i : BEq(BGcd(i, n), 1)))
RECURSIVE Bit(_, _)
Bit(x, i) == IF i = 0 THEN x % 2 ELSE Bit(x \div 2, i - 1)
ASSUME \A a, b \in 0..20 : \A i \in 0..5 : BBit(BXor(a, b), i) = (Bit(a, i) + Bit(b, i)) % 2 /\ BBit(BAnd(a, b), i) = Bit(a, i) * Bit(b, i) /\ BBit(BOr(a, b), i) = (IF Bit(a, i) + Bit(b, i) > 0 THEN 1 ELSE 0)
ASSUME \A a \in R : \A k \in 0..8 : BShl(a, k) = N(a * 2 ^ k) /\ BShr(a, k) = N(a \div 2 ^ k)
ASSUME \A a \in 1..300 : 2 ^ (BBits(a) - 1) <= a /\ a < 2 ^ BBits(a)
\* large values: carries beyond 2^31 and 2^64
L == {BAdd(BPow(2, k), d) : k \in {31, 32, 63, 64, 127}, d \in {-1, 0, 1}} \cup {BNeg(BPow(10, 25)), "0"}
ASSUME \A a, b \in L : BSub(BAdd(a, b), b) = a /\ BMul(BAdd(a, 1), b) = BAdd(BMul(a, b), b) /\ (BEq(b, 0) \/ (BAdd(BMul(BDiv(a, b), b), BMod(a, b)) = a))
ASSUME BPow(2, 64) = "18446744073709551616" /\ BMul("4294967296", "4294967296") = "18446744073709551616"
ASSUME BSum(<<1, "2", 3>>) = "6" /\ BProd(<<2, "3", 4>>) = "24" /\ BDot(<<1, 2>>, <<3, 4>>) = "11" /\ Codes("aZ0") = <<97, 90, 48>>
====
