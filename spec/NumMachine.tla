----------------------------- MODULE NumMachine -----------------------------
(* Primes, factorisations, divisors, multiplicative functions and their     *)
(* summatory functions, floor quotients and integer roots.  Small arguments *)
(* are judged by the definition, large ones by identities that determine    *)
(* the value uniquely.                                                      *)
EXTENDS Common, Big, MState
Asc(q) == \A i \in 1..(Len(q) - 1) : BLt(q[i], q[i + 1])
Distinct(q) == Cardinality(SeqToSet(q)) = Len(q)
\* F = sequence of <<prime, exponent>>
IsFact(n, F) == /\ \A i \in DOMAIN F : BIsPrime(F[i][1]) /\ F[i][2] >= 1
                /\ Distinct([i \in DOMAIN F |-> BStr(F[i][1])])
                /\ BEq(BProd([i \in DOMAIN F |-> BPow(F[i][1], F[i][2])]), n)
AscFact(F) == Asc([i \in DOMAIN F |-> F[i][1]])
PhiOf(F) == BProd([i \in DOMAIN F |-> BMul(BSub(F[i][1], 1), BPow(F[i][1], F[i][2] - 1))])
RECURSIVE LamOf(_)
LamOf(F) == IF F = <<>> THEN "1" ELSE BLcm(LamOf(Tail(F)), LET p == F[1][1]  c == F[1][2]  v == BMul(BSub(p, 1), BPow(p, c - 1)) IN IF BEq(p, 2) /\ c >= 3 THEN BDiv(v, 2) ELSE v)
MuOf(F) == IF \E i \in DOMAIN F : F[i][2] > 1 THEN 0 ELSE IF (Len(F) % 2) = 0 THEN 1 ELSE -1
NumDiv(F) == FoldLeft(LAMBDA a, x : a * (x[2] + 1), 1, F)
IsDivList(n, q) == Distinct([i \in DOMAIN q |-> BStr(q[i])]) /\ \A i \in DOMAIN q : BLe(1, q[i]) /\ BEq(BMod(n, q[i]), 0)
\* ------------------------------------------------ the same by definition, for small arguments
Lim == 400
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)
Divs(n) == {d \in 1..n : (n % d) = 0}
PrimeI(n) == n >= 2 /\ \A d \in 2..(n - 1) : (n % d) # 0
MuI(n) == IF \E d \in 2..n : (n % (d * d)) = 0 THEN 0 ELSE IF (Cardinality({p \in Divs(n) : PrimeI(p)}) % 2) = 0 THEN 1 ELSE -1
PhiI(n) == Cardinality({k \in 1..n : GcdI(k, n) = 1})
MuT == TLCEval([n \in 1..Lim |-> MuI(n)])
PhiT == TLCEval([n \in 1..Lim |-> PhiI(n)])
RECURSIVE Acc(_, _, _)
Acc(T, k, s) == IF k > Len(T) THEN s ELSE Acc(T, k + 1, Append(s, (IF k = 1 THEN 0 ELSE s[k - 1]) + T[k]))
MertT == TLCEval(Acc(MuT, 1, <<>>))
PhiSumT == TLCEval(Acc(PhiT, 1, <<>>))
SqfT == TLCEval(Acc([n \in 1..Lim |-> Abs(MuT[n])], 1, <<>>))
\* least e >= 1 with a^e = 1 (mod n) for all a coprime to n
LamI(n) == IF n = 1 THEN 1 ELSE CHOOSE e \in 1..n : (\A a \in 1..n : GcdI(a, n) = 1 => BEq(BPowMod(a, e, n), 1)) /\ \A e2 \in 1..(e - 1) : \E a \in 1..n : GcdI(a, n) = 1 /\ ~BEq(BPowMod(a, e2, n), 1)
\* ------------------------------------------------ quotient block decomposition
\* q = seq of <<l, r, v>>: maximal blocks partitioning 1..n, v = n div d on the block
IsBlocks(n, q) == IF BEq(n, 0) THEN q = <<>> ELSE
   /\ Len(q) >= 1 /\ BEq(q[1][1], 1) /\ BEq(q[Len(q)][2], n)
   /\ \A i \in DOMAIN q : BEq(BDiv(n, q[i][1]), q[i][3]) /\ BEq(BDiv(n, q[i][2]), q[i][3]) /\ BLe(q[i][1], q[i][2])
   /\ \A i \in 1..(Len(q) - 1) : BEq(BAdd(q[i][2], 1), q[i + 1][1]) /\ BLt(q[i + 1][3], q[i][3])
IsFloorRoot(x, k, r) == BLe(0, r) /\ BLe(BPow(r, k), x) /\ BLt(x, BPow(BAdd(r, 1), k))
IsCeilRoot(x, k, r) == BLe(0, r) /\ BLe(x, BPow(r, k)) /\ (BEq(r, 0) \/ BLt(BPow(BSub(r, 1), k), x))
\* values q -> f(q) given as a sequence of <<q, f(q)>>, ascending in q
Look(T, q) == LET i == CHOOSE j \in DOMAIN T : BEq(T[j][1], q) IN T[i][2]
\* every floor quotient of q occurs in T (its multiplicities add up to q)
Quots(q, T) == BEq(BSum([j \in DOMAIN T |-> BSub(BDiv(q, T[j][1]), BDiv(q, BAdd(T[j][1], 1)))]), q) /\ \A j \in 1..(Len(T) - 1) : BLt(T[j][1], T[j + 1][1])
\* tabulated values at 10^0 .. 10^10 (OEIS A084237, A064018, A071172)
MertensAt10 == <<1, -1, 1, 2, -23, -48, 212, 1037, 1928, -222, -33722>>
TotientSumAt10 == <<"1", "32", "3044", "304192", "30397486", "3039650754", "303963552392", "30396356427242", "3039635516365908", "303963551173008414", "30396355092886216366">>
SquareFreeAt10 == <<"1", "7", "61", "608", "6083", "60794", "607926", "6079291", "60792694", "607927124", "6079270942">>
NumStep(e) ==
  \/ /\ e[1] = "isp" /\ Holds(\A i \in DOMAIN e[2] : e[2][i][2] = BIsPrime(e[2][i][1]))
  \/ /\ e[1] = "prange" /\ Holds(e[4] = BPrimesIn(e[2], e[3]))             \* start, length, offsets reported prime
  \/ /\ e[1] = "semi" /\ Holds(\A i \in DOMAIN e[2] : BIsPrime(e[2][i]))    \* composites (a)(b): those reported prime
  \/ /\ e[1] = "fact" /\ Holds(IsFact(e[2], e[3]))
  \/ /\ e[1] = "afact" /\ Holds(IsFact(e[2], e[3]) /\ AscFact(e[3]))
  \/ /\ e[1] = "lfact" /\ Holds(\A i \in DOMAIN e[2] : IsFact(i, e[2][i]) /\ (e[3] => AscFact(e[2][i])))
  \/ /\ e[1] = "mpf" /\ Holds(\A i \in DOMAIN e[2] : LET n == e[2][i][1]  p == e[2][i][2] IN PrimeI(p) /\ (n % p) = 0 /\ (e[3] => \A d \in 2..(p - 1) : (n % d) # 0))
  \/ /\ e[1] = "divs" /\ Holds(IsFact(e[2], e[3]) /\ IsDivList(e[2], e[4]) /\ Len(e[4]) = NumDiv(e[3]))
  \/ /\ e[1] = "dtab" /\ Holds(e[3] = [i \in 1..e[2] |-> SetToSortSeq(Divs(i), LAMBDA a, b : a < b)])
  \/ /\ e[1] = "phi" /\ Holds(IsFact(e[2], e[3]) /\ BEq(e[4], PhiOf(e[3])))
  \/ /\ e[1] = "phis" /\ Holds(e[2] = SubSeq(PhiT, 1, Len(e[2])))           \* phi(1..n)
  \/ /\ e[1] = "mus" /\ Holds(e[2] = SubSeq(MuT, 1, Len(e[2])))
  \/ /\ e[1] = "lam" /\ Holds(IsFact(e[2], e[3]) /\ BEq(e[4], LamOf(e[3])))
  \/ /\ e[1] = "lams" /\ Holds(e[2] = [i \in 1..Len(e[2]) |-> LamI(i)])
  \/ /\ e[1] = "powi" /\ Holds(BEq(e[4], BPow(e[2], e[3])))
  \/ /\ e[1] = "quo" /\ Holds(IsBlocks(e[2], e[3]) /\ e[4] = Len(e[3]) /\ e[5] = [i \in DOMAIN e[3] |-> e[3][Len(e[3]) + 1 - i][3]])
  \/ /\ e[1] = "quob"    \* n, how many quotients, whether they came in ascending order, sampled <<i, i-th quotient>>
     /\ Holds(LET h == BSqrt(e[2])  m == BSub(BMul(2, h), IF BLt(e[2], BMul(h, BAdd(h, 1))) THEN 1 ELSE 0) IN
          e[4] /\ BEq(e[3], m) /\ \A i \in DOMAIN e[5] : BEq(e[5][i][2], IF BLe(e[5][i][1], h) THEN e[5][i][1] ELSE BDiv(e[2], BSub(BAdd(m, 1), e[5][i][1]))))
  \/ /\ e[1] = "quon" /\ Holds(LET h == BSqrt(e[2]) IN BEq(e[3], BSub(BMul(2, h), IF BLt(e[2], BMul(h, BAdd(h, 1))) THEN 1 ELSE 0)))
  \/ /\ e[1] = "mquo" /\ Holds(LET V == e[2]  q == e[3]  mx == Max(SeqToSet(V)) IN
          IF mx = 0 THEN q = <<>> ELSE
          /\ Len(q) >= 1 /\ q[1][1] = 1 /\ q[Len(q)][2] >= mx /\ q[Len(q)][1] <= mx
          /\ \A i \in DOMAIN q : q[i][1] <= q[i][2] /\ q[i][3] = [j \in DOMAIN V |-> V[j] \div q[i][1]] /\ q[i][3] = [j \in DOMAIN V |-> V[j] \div q[i][2]]
          /\ \A i \in 1..(Len(q) - 1) : q[i + 1][1] = q[i][2] + 1 /\ q[i + 1][3] # q[i][3])
  \/ /\ e[1] = "root" /\ Holds(\A i \in DOMAIN e[2] : LET q == e[2][i] IN IsFloorRoot(q[1], q[2], q[3]) /\ IsCeilRoot(q[1], q[2], q[4]))
  \* summatory functions: small arguments
  \/ /\ e[1] = "sqfs" /\ Holds(e[2] = SubSeq(SqfT, 1, Len(e[2])))
  \/ /\ e[1] = "merts" /\ Holds(e[2] = SubSeq(MertT, 1, Len(e[2])))
  \/ /\ e[1] = "phisums" /\ Holds(e[2] = SubSeq(PhiSumT, 1, Len(e[2])))
  \* <<v, f(v)>> at every floor quotient v of n, ascending; e[4] = positions at which the identity SUM_d f(v div d) = g(v) is evaluated
  \/ /\ e[1] \in {"mertall", "phiall"}
     /\ Holds(LET T == e[3] IN BEq(T[Len(T)][1], e[2]) /\ \A i \in DOMAIN T : BEq(BDiv(e[2], BDiv(e[2], T[i][1])), T[i][1]))
     /\ Holds(\A x \in DOMAIN e[4] : LET T == e[3]  i == e[4][x]  q == T[i][1] IN
          /\ Quots(q, SubSeq(T, 1, i))
          /\ BEq(BDot([j \in 1..i |-> T[j][2]], [j \in 1..i |-> BSub(BDiv(q, T[j][1]), BDiv(q, BAdd(T[j][1], 1)))]),
                 IF e[1] = "mertall" THEN 1 ELSE BDiv(BMul(q, BAdd(q, 1)), 2)))
  \* squarefree counts at every n div d^2: SUM_d f(v div d^2) = v
  \/ /\ e[1] = "sqfall"
     /\ Holds(\A x \in DOMAIN e[4] : LET T == e[3]  i == e[4][x]  q == T[i][1] IN
          BEq(BDot([j \in 1..i |-> T[j][2]], [j \in 1..i |-> BSub(BSqrt(BDiv(q, T[j][1])), BSqrt(BDiv(q, BAdd(T[j][1], 1))))]), q))
  \* consecutive arguments differ by the function itself: n, factorisation of n, f(n-1), f(n)
  \/ /\ e[1] = "known" /\ Holds(LET k == e[2] + 1 IN BEq(e[3], MertensAt10[k]) /\ BEq(e[4], TotientSumAt10[k]) /\ BEq(e[5], SquareFreeAt10[k]))
  \/ /\ e[1] = "mertd" /\ Holds(IsFact(e[2], e[3]) /\ BEq(BSub(e[5], e[4]), MuOf(e[3])))
  \/ /\ e[1] = "phid" /\ Holds(IsFact(e[2], e[3]) /\ BEq(BSub(e[5], e[4]), PhiOf(e[3])))
  \/ /\ e[1] = "sqfd" /\ Holds(IsFact(e[2], e[3]) /\ BEq(BSub(e[5], e[4]), Abs(MuOf(e[3]))))
\* the machine has no state: every answer stands alone
NumNext(e) == NumStep(e) /\ UNCHANGED st
=============================================================================
