----------------------------- MODULE ModMachine -----------------------------
(* Arithmetic in Z/mZ, linear Diophantine equations, discrete logarithms,   *)
(* square roots, orders, rational numbers and the Stern-Brocot tree.        *)
EXTENDS Common, Big, MState
\* ------------------------------------------------------------ residues: st = register file, values 0..m-1
Red(x, m) == BMod(x, m)
Upd(i, v, r) == st' = [st EXCEPT ![i] = v] /\ BEq(v, r)
ModStep(e, m) ==
  \/ e[1] = "set" /\ Upd(e[2], Red(e[3], m), e[4])
  \/ e[1] = "add" /\ Upd(e[2], Red(BAdd(st[e[2]], st[e[3]]), m), e[4])
  \/ e[1] = "sub" /\ Upd(e[2], Red(BSub(st[e[2]], st[e[3]]), m), e[4])
  \/ e[1] = "mul" /\ Upd(e[2], Red(BMul(st[e[2]], st[e[3]]), m), e[4])
  \/ e[1] = "div" /\ Upd(e[2], Red(BMul(st[e[2]], BModInv(st[e[3]], m)), m), e[4])
  \/ e[1] = "inc" /\ Upd(e[2], Red(BAdd(st[e[2]], 1), m), e[3])
  \/ e[1] = "dec" /\ Upd(e[2], Red(BSub(st[e[2]], 1), m), e[3])
  \/ e[1] = "neg" /\ Upd(e[2], Red(BNeg(st[e[2]]), m), e[3])
  \/ e[1] = "pow" /\ Upd(e[2], BPowMod(st[e[2]], e[3], m), e[4])
  \/ e[1] = "inv" /\ Upd(e[2], BModInv(st[e[2]], m), e[3])
  \/ e[1] = "eq" /\ Holds(e[4] = BEq(st[e[2]], st[e[3]])) /\ UNCHANGED st
  \/ e[1] = "mod" /\ Holds(BEq(e[2], m)) /\ UNCHANGED st
  \/ /\ e[1] = "sqrt"    \* m prime; e[3] = <<>> or <<root>>
     /\ Holds(LET a == st[e[2]] IN IF e[3] = <<>> THEN ~BEq(m, 2) /\ BEq(BPowMod(a, BDiv(BSub(m, 1), 2), m), BSub(m, 1)) ELSE BEq(Red(BMul(e[3][1], e[3][1]), m), a) /\ BLt(e[3][1], m))
     /\ UNCHANGED st
\* Montgomery form: R = 2^32 or 2^64, N odd
MontStep(e, N, R) ==
  /\ UNCHANGED st
  /\ \/ e[1] = "make" /\ Holds(BEq(e[3], Red(BMul(e[2], R), N)))
     \/ e[1] = "reduce" /\ Holds(BLt(e[3], N) /\ BEq(Red(BMul(e[3], R), N), Red(e[2], N)))
     \/ e[1] = "madd" /\ Holds(BEq(e[4], Red(BAdd(e[2], e[3]), N)))
     \/ e[1] = "msub" /\ Holds(BEq(e[4], Red(BSub(e[2], e[3]), N)))
     \/ e[1] = "mmul" /\ Holds(BLt(e[4], N) /\ BEq(Red(BMul(e[4], R), N), Red(BMul(e[2], e[3]), N)))
     \/ e[1] = "mpow" /\ Holds(BEq(e[4], Red(BMul(BPowMod(e[2], e[3], N), R), N)))   \* base t given as make(t)
\* ------------------------------------------------------------ single questions
Prime(p) == BIsPrime(p)
IsFactM(n, F) == (\A i \in DOMAIN F : Prime(F[i])) /\ \A p \in {F[i] : i \in DOMAIN F} : BEq(BMod(n, p), 0)
\* o is the order of a modulo m; Ps = all primes dividing o
IsOrder(m, a, o, Ps) == /\ BLe(1, o) /\ BEq(BPowMod(a, o, m), Red(1, m))
                        /\ \A i \in DOMAIN Ps : Prime(Ps[i]) /\ BEq(BMod(o, Ps[i]), 0) /\ ~BEq(BPowMod(a, BDiv(o, Ps[i]), m), Red(1, m))
RECURSIVE StripAll(_, _)
StripP(n, p) == IF BEq(BMod(n, p), 0) THEN CHOOSE x \in {BDiv(n, BPow(p, k)) : k \in 1..BBits(n)} : ~BEq(BMod(x, p), 0) /\ BEq(BMod(n, x), 0) ELSE n
StripAll(n, Ps) == IF Ps = <<>> THEN n ELSE StripAll(StripP(n, Ps[1]), Tail(Ps))
AllPrimes(n, Ps) == BEq(StripAll(n, Ps), 1)        \* no prime factor of n is missing from Ps
PowI(a, k, m) == BInt(BPowMod(a, k, m))
RECURSIVE GcdM(_, _)
GcdM(a, b) == IF b = 0 THEN Abs(a) ELSE GcdM(b, Abs(a) % Abs(b))
\* exponents 0..m suffice: powers of a repeat after at most m steps
DlogSmall(a, b, m) == LET S == {k \in 0..m : PowI(a, k, m) = (b % m)} IN IF S = {} THEN -1 ELSE Min(S)
OrderSmall(a, m) == Min({k \in 1..m : PowI(a, k, m) = (1 % m)})
PhiSmall(m) == Cardinality({k \in 1..m : GcdM(k, m) = 1})
RECURSIVE TowerCap(_, _)
TowerCap(a, b) == IF b = 0 THEN "1" ELSE LET x == TowerCap(a, b - 1) IN IF BLt("100000", x) THEN x ELSE IF BLt("2000", BMul(x, BBits(a))) THEN "1000000000" ELSE BPow(a, BInt(x))
RECURSIVE Tet(_, _, _)     \* a^^b mod m; large exponents by Euler's theorem with the exponent kept at least phi(m)
Tet(a, b, m) == IF BEq(m, 1) THEN "0" ELSE IF b = 0 THEN "1" ELSE
   IF BEq(a, 0) THEN (IF (b % 2) = 0 THEN "1" ELSE "0") ELSE IF BEq(a, 1) THEN "1" ELSE
   LET x == TowerCap(a, Min({b - 1, 6})) IN IF BLt("100000", x) THEN BPowMod(a, BAdd(Tet(a, b - 1, BPhi(m)), BPhi(m)), m) ELSE BPowMod(a, x, m)
RECURSIVE CrtAcc(_, _, _, _)
CrtAcc(Q, i, x, M) == IF i > Len(Q) THEN x ELSE
   LET r == Q[i][1]  n == Q[i][2]  t == BMod(BMul(BSub(r, x), BModInv(BMod(M, n), n)), n) IN CrtAcc(Q, i + 1, BAdd(x, BMul(M, t)), BMul(M, n))
CeilDiv(n, x) == BNeg(BDiv(BNeg(n), x))
DivBy(up, n, x) == IF up THEN CeilDiv(n, x) ELSE BDiv(n, x)
AskStep(e) ==
  /\ UNCHANGED st
  /\ \/ e[1] = "barrett" /\ Holds(\A i \in DOMAIN e[3] : LET q == e[3][i] IN BEq(q[2], BDiv(q[1], e[2])) /\ BEq(q[3], BMod(q[1], e[2])))
     \/ e[1] = "extgcd" /\ Holds(BEq(BAdd(BMul(e[2], e[4]), BMul(e[3], e[5])), e[6]) /\ BEq(e[6], BGcd(e[2], e[3])))
     \/ e[1] = "gcdinv" /\ Holds(BEq(e[5], BGcd(e[2], e[3])) /\ BLe(0, e[4]) /\ BLt(e[4], e[3]) /\ BEq(BMod(BMul(e[2], e[4]), e[3]), BMod(e[5], e[3])))
     \/ e[1] = "invmod" /\ Holds(BLe(0, e[4]) /\ BLt(e[4], e[3]) /\ BEq(BMod(BMul(e[2], e[4]), e[3]), BMod(1, e[3])))
     \/ e[1] = "safemod" /\ Holds(BEq(e[4], BMod(e[2], e[3])))
     \/ e[1] = "garner" /\ Holds(BEq(e[4], BMod(CrtAcc(e[2], 1, "0", "1"), e[3])))
     \/ e[1] = "dlogs" /\ Holds(\A i \in DOMAIN e[3] : LET q == e[3][i] IN q[3] = DlogSmall(q[1], q[2], e[2]))
     \* large: m, a, b, answer, order of a, its primes; the group generated by a is cyclic, so b lies in it iff b^o = 1 (m prime)
     \/ e[1] = "dlogb" /\ Holds(/\ IsOrder(e[2], e[3], e[6], e[7]) /\ AllPrimes(e[6], e[7])
                                /\ IF BEq(e[5], -1) THEN Prime(e[2]) /\ ~BEq(BPowMod(e[4], e[6], e[2]), 1)
                                   ELSE BLe(0, e[5]) /\ BLt(e[5], e[6]) /\ BEq(BPowMod(e[3], e[5], e[2]), BMod(e[4], e[2])))
     \* a and m arbitrary; w is an exponent with a^w = b, found before by construction: the answer is an exponent no larger that also works
     \/ e[1] = "dlogw" /\ Holds(BLe(0, e[5]) /\ BLe(e[5], e[6]) /\ BEq(BPowMod(e[3], e[5], e[2]), BMod(e[4], e[2])) /\ BEq(BPowMod(e[3], e[6], e[2]), BMod(e[4], e[2])))
     \/ e[1] = "sqrtp" /\ Holds(LET a == BMod(e[2], e[3]) IN IF e[4] = <<>> THEN ~BEq(e[3], 2) /\ BEq(BPowMod(a, BDiv(BSub(e[3], 1), 2), e[3]), BSub(e[3], 1)) ELSE BEq(BMod(BMul(e[4][1], e[4][1]), e[3]), a) /\ BLe(0, e[4][1]) /\ BLt(e[4][1], e[3]))
     \/ e[1] = "sqrts" /\ Holds(LET Sq == TLCEval([x \in 0..(e[2] - 1) |-> (x * x) % e[2]])  R == TLCEval({Sq[x] : x \in 0..(e[2] - 1)}) IN \A i \in DOMAIN e[3] : LET a == e[3][i][1] % e[2]  r == e[3][i][2] IN IF r = <<>> THEN a \notin R ELSE r[1] \in 0..(e[2] - 1) /\ Sq[r[1]] = a)
     \/ e[1] = "sqrtc" /\ Holds(e[4] # <<>> /\ BEq(BMod(BMul(e[4][1], e[4][1]), e[3]), BMod(e[2], e[3])) /\ BLe(0, e[4][1]) /\ BLt(e[4][1], e[3]))   \* a is a square by construction
     \* a modulus: totient, lambda, primality, the primes of lambda, <<a, order>>*, <<a, is primitive root>>*
     \/ /\ e[1] = "ordm"
        /\ Holds(LET m == e[2]  U == TLCEval({a \in 0..(m - 1) : GcdM(a, m) = 1})  Od == TLCEval([a \in U |-> OrderSmall(a, m)])  lam == Max({Od[a] : a \in U})  ph == Cardinality(U)
                     root(a) == (a % m) \in U /\ Od[a % m] = ph IN
            /\ e[3] = ph /\ e[4] = lam /\ e[5] = BIsPrime(m)
            /\ SeqToSet(e[6]) = {p \in 1..lam : BIsPrime(p) /\ (lam % p) = 0} /\ Len(e[6]) = Cardinality(SeqToSet(e[6]))
            /\ \A i \in DOMAIN e[7] : e[7][i][2] = Od[e[7][i][1] % m]
            /\ \A i \in DOMAIN e[8] : e[8][i][2] = root(e[8][i][1])
            /\ \A i \in DOMAIN e[9] : root(e[9][i]))
     \/ e[1] = "ordb" /\ Holds(IsOrder(e[2], e[3], e[4], e[5]) /\ AllPrimes(e[4], e[5]))
     \/ e[1] = "proot" /\ Holds(Prime(e[2]) /\ IsOrder(e[2], e[3], BSub(e[2], 1), e[4]) /\ AllPrimes(BSub(e[2], 1), e[4]))   \* p prime, g, primes of p-1
     \/ e[1] = "tet" /\ Holds(BEq(e[5], Tet(e[2], e[3], e[4])))
     \/ e[1] = "minlin" /\ Holds(LET n == e[2]  m == e[3] IN BEq(e[6], Min({BInt(BMod(BAdd(BMul(e[4], x), e[5]), m)) : x \in 0..(n - 1)})))
     \/ e[1] = "minlinb" /\ Holds(BEq(BMod(BAdd(BMul(e[4], e[7]), e[5]), e[3]), e[6]) /\ BLe(0, e[7]) /\ BLt(e[7], e[2]) /\ \A i \in DOMAIN e[8] : BLe(e[6], BMod(BAdd(BMul(e[4], e[8][i]), e[5]), e[3])))
     \* denominators: ceil?, sign, n, q, bound, <<>> or <<l, r>>
     \/ e[1] = "dens" /\ Holds(\A i \in DOMAIN e[2] : LET z == e[2][i]  up == z[1]  neg == z[2]  n == z[3]  q == z[4]  bd == z[5]
             X == {x \in (IF neg THEN bd..(-1) ELSE 1..bd) : BEq(DivBy(up, n, x), q)} IN IF X = {} THEN z[6] = <<>> ELSE z[6] = <<Min(X), Max(X)>>)
     \/ e[1] = "denb" /\ Holds(\A i \in DOMAIN e[2] : LET z == e[2][i]  up == z[1]  neg == z[2]  n == z[3]  q == z[4]  l == z[5]  r == z[6] IN
             /\ BLe(l, r) /\ (IF neg THEN BLt(r, 0) ELSE BLt(0, l)) /\ BEq(DivBy(up, n, l), q) /\ BEq(DivBy(up, n, r), q)
             /\ (BEq(l, 1) \/ BEq(l, z[7]) \/ ~BEq(DivBy(up, n, BSub(l, 1)), q)) /\ (BEq(r, -1) \/ BEq(r, z[7]) \/ ~BEq(DivBy(up, n, BAdd(r, 1)), q)))
     \/ e[1] = "invs" /\ Holds(\A i \in DOMAIN e[3] : BEq(BMod(BMul(e[3][i][1], e[3][i][2]), e[2]), 1) /\ BLt(e[3][i][2], e[2]) /\ BLe(0, e[3][i][2]))
     \/ e[1] = "pows" /\ Holds(\A i \in DOMAIN e[4] : BEq(BPowMod(e[3], e[4][i][1], e[2]), e[4][i][2]))
     \/ e[1] = "mulinv" /\ Holds(BEq(BMod(BMul(BMul(e[3], e[4]), e[5]), e[2]), 1))         \* (1/i)(1/j)
\* ------------------------------------------------------------ a x + b y = c under bounds; st = <<xlo, xhi, ylo, yhi>>, "none" = unbounded
BzOk(x, y) == /\ (st[1] = "none" \/ BLe(st[1], x)) /\ (st[2] = "none" \/ BLe(x, st[2])) /\ (st[3] = "none" \/ BLe(st[3], y)) /\ (st[4] = "none" \/ BLe(y, st[4]))
\* the solutions are (x + k cx, y + k cy): from one of them, those inside the bounds form an interval of k
BzOn(a, b, c, s) == BEq(BAdd(BMul(a, s[1]), BMul(b, s[2])), c)
BzEnd(a, b, s, dir) == LET g == BGcd(a, b)  cx == BDiv(b, g)  cy == BNeg(BDiv(a, g)) IN BzOk(s[1], s[2]) /\ ~BzOk(BAdd(s[1], BMul(dir, cx)), BAdd(s[2], BMul(dir, cy)))
NarrowLo(old, v) == IF old = "none" THEN BStr(v) ELSE BMax(old, v)
NarrowHi(old, v) == IF old = "none" THEN BStr(v) ELSE BMin(old, v)
\* small coefficients: all solutions with |x|, |y| <= 140 (any finite solution set lies within 110)
BzSols(a, b, c) == {p \in {<<x, IF b = 0 THEN 0 ELSE (c - a * x) \div b>> : x \in -140..140} : b # 0 /\ a * p[1] + b * p[2] = c}
BzAll(a, b, c) == IF b # 0 THEN BzSols(a, b, c) ELSE {<<y[2], y[1]>> : y \in BzSols(b, a, c)}
BzFin(S) == \A p \in S : Abs(p[1]) <= 110 /\ Abs(p[2]) <= 110
BzStep(e, a, b, c) ==
  \/ /\ e[1] = "bound"
     /\ st' = CASE e[2] = "minx" -> [st EXCEPT ![1] = NarrowLo(@, e[3])] [] e[2] = "maxx" -> [st EXCEPT ![2] = NarrowHi(@, e[3])]
                [] e[2] = "miny" -> [st EXCEPT ![3] = NarrowLo(@, e[3])] [] e[2] = "maxy" -> [st EXCEPT ![4] = NarrowHi(@, e[3])]
     /\ e[4] \in BOOLEAN
  \/ /\ e[1] = "small"     \* has, count (<<>> = infinite), the four extreme solutions (<<>> when not asked)
     /\ UNCHANGED st
     /\ Holds(LET S == TLCEval({p \in BzAll(a, b, c) : BzOk(p[1], p[2])}) IN
          /\ e[2] = (S # {})
          /\ IF BzFin(S) THEN e[3] = <<Cardinality(S)>> ELSE e[3] = <<>>
          /\ (e[4] # <<>> => <<e[4][1], e[4][2]>> \in S /\ \A p \in S : e[4][1] <= p[1])
          /\ (e[5] # <<>> => <<e[5][1], e[5][2]>> \in S /\ \A p \in S : e[5][1] >= p[1])
          /\ (e[6] # <<>> => <<e[6][1], e[6][2]>> \in S /\ \A p \in S : e[6][2] <= p[2])
          /\ (e[7] # <<>> => <<e[7][1], e[7][2]>> \in S /\ \A p \in S : e[7][2] >= p[2]))
  \/ /\ e[1] = "zero"      \* a = b = 0: every pair within the bounds, or none
     /\ UNCHANGED st
     /\ Holds(LET empty == (st[1] # "none" /\ st[2] # "none" /\ BLt(st[2], st[1])) \/ (st[3] # "none" /\ st[4] # "none" /\ BLt(st[4], st[3])) \/ c # 0 IN
          /\ e[2] = ~empty
          /\ IF empty THEN Len(e[3]) = 1 /\ BEq(e[3][1], 0) ELSE IF \E i \in 1..4 : st[i] = "none" THEN e[3] = <<>> ELSE Len(e[3]) = 1 /\ BEq(e[3][1], BMul(BAdd(BSub(st[2], st[1]), 1), BAdd(BSub(st[4], st[3]), 1))))
  \/ /\ e[1] = "zeroext"   \* a = b = c = 0 within a box: the extreme solutions are its sides
     /\ UNCHANGED st
     /\ Holds(/\ \A i \in 2..5 : BzOk(e[i][1], e[i][2])
              /\ BEq(e[2][1], st[1]) /\ BEq(e[3][1], st[2]) /\ BEq(e[4][2], st[3]) /\ BEq(e[5][2], st[4]))
  \/ /\ e[1] = "big"       \* a, b # 0, a solvable bounded instance: first and last solution in x, first and last in y, count
     /\ UNCHANGED st
     /\ Holds(LET g == BGcd(a, b)  cx == BAbs(BDiv(b, g)) IN
          /\ \A i \in 2..5 : BzOn(a, b, c, e[i]) /\ BzOk(e[i][1], e[i][2])
          /\ LET d == IF BLt(0, b) THEN 1 ELSE -1  dy == IF BLt(0, a) THEN -1 ELSE 1 IN BzEnd(a, b, e[2], -d) /\ BzEnd(a, b, e[3], d) /\ BzEnd(a, b, e[4], -dy) /\ BzEnd(a, b, e[5], dy)
          /\ BEq(e[6], BAdd(BDiv(BSub(e[3][1], e[2][1]), cx), 1)))
  \/ e[1] = "nosol" /\ Holds(~BEq(BMod(c, BGcd(a, b)), 0) /\ e[2] = FALSE) /\ UNCHANGED st
\* ------------------------------------------------------------ factorial number system: st = registers modulo n!
RECURSIVE BFact(_)
BFact(n) == IF n <= 1 THEN "1" ELSE BMul(n, BFact(n - 1))
Rank(p) == BSum([i \in DOMAIN p |-> BMul(Cardinality({j \in (i + 1)..Len(p) : p[j] < p[i]}), BFact(Len(p) - i))])
FacStep(e, n) ==
  LET m == BFact(n) IN
  \/ e[1] = "set" /\ Upd(e[2], Red(e[3], m), e[4])
  \/ e[1] = "add" /\ Upd(e[2], Red(BAdd(st[e[2]], st[e[3]]), m), e[4])
  \/ e[1] = "sub" /\ Upd(e[2], Red(BSub(st[e[2]], st[e[3]]), m), e[4])
  \/ e[1] = "addc" /\ Upd(e[2], Red(BAdd(st[e[2]], e[3]), m), e[4])
  \/ e[1] = "subc" /\ Upd(e[2], Red(BSub(st[e[2]], e[3]), m), e[4])
  \/ e[1] = "csub" /\ Upd(e[2], Red(BSub(e[3], st[e[2]]), m), e[4])
  \/ e[1] = "mulc" /\ Upd(e[2], Red(BMul(st[e[2]], e[3]), m), e[4])
  \/ e[1] = "inc" /\ Upd(e[2], Red(BAdd(st[e[2]], 1), m), e[3])
  \/ e[1] = "dec" /\ Upd(e[2], Red(BSub(st[e[2]], 1), m), e[3])
  \/ e[1] = "neg" /\ Upd(e[2], Red(BNeg(st[e[2]]), m), e[3])
  \/ e[1] = "perm" /\ Upd(e[2], Rank(e[3]), e[4])
  \/ e[1] = "toperm" /\ Holds(Len(e[3]) = n /\ SeqToSet(e[3]) = 0..(n - 1) /\ BEq(Rank(e[3]), st[e[2]])) /\ UNCHANGED st
  \/ e[1] = "cmp" /\ Holds(LET a == st[e[2]]  b == st[e[3]] IN e[4] = <<BEq(a, b), ~BEq(a, b), BLt(a, b), BLe(a, b), BLt(b, a), BLe(b, a)>>) /\ UNCHANGED st
  \/ e[1] = "resize" /\ Holds(BEq(e[4], BMod(st[e[2]], BFact(e[3])))) /\ UNCHANGED st
\* ------------------------------------------------------------ rational numbers num/den
RatOk(num, den) == BLt(0, den) /\ BEq(BGcd(num, den), 1)
CmpB(a, b) == IF BEq(a, b) THEN 0 ELSE IF BLt(a, b) THEN -1 ELSE 1
IsRat(r, num, den) == BLt(0, r[2]) /\ BEq(BGcd(r[1], r[2]), 1) /\ BEq(BMul(r[1], den), BMul(r[2], num))
\* node i of the infinite Stern-Brocot tree in heap order: bounds <<l, r>> of its subtree, from outer bounds
RECURSIVE SbBounds(_, _)
SbBounds(i, top) == IF i = 1 THEN <<<<0, 1>>, top>> ELSE LET p == SbBounds(i \div 2, top)  m == <<p[1][1] + p[2][1], p[1][2] + p[2][2]>> IN IF (i % 2) = 0 THEN <<p[1], m>> ELSE <<m, p[2]>>
SbNode(i, top) == LET p == SbBounds(i, top) IN <<p[1][1] + p[2][1], p[1][2] + p[2][2]>>
RatStep(e) ==
  /\ UNCHANGED st
  /\ \/ e[1] = "new" /\ Holds(IsRat(e[4], e[2], e[3]))
     \/ e[1] = "bin" /\ Holds(LET a == e[2]  b == e[3] IN    \* a, b, a+b, a-b, a*b, <<>> or <<a/b>>
            /\ IsRat(e[4], BAdd(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
            /\ IsRat(e[5], BSub(BMul(a[1], b[2]), BMul(b[1], a[2])), BMul(a[2], b[2]))
            /\ IsRat(e[6], BMul(a[1], b[1]), BMul(a[2], b[2]))
            /\ IF BEq(b[1], 0) THEN e[7] = <<>> ELSE IsRat(e[7][1], BMul(a[1], b[2]), BMul(a[2], b[1])))
     \/ e[1] = "mulbig" /\ Holds(IsRat(e[4], BMul(e[2][1], e[3][1]), BMul(e[2][2], e[3][2])))   \* the cancelled factor exceeds 32 bits
     \/ e[1] = "cmp" /\ Holds(LET c == CmpB(BMul(e[2][1], e[3][2]), BMul(e[3][1], e[2][2])) IN e[4] = c /\ e[5] = <<c < 0, c > 0, c <= 0, c >= 0, c = 0, c # 0>>)
     \/ e[1] = "trunc" /\ Holds(BEq(e[3], IF CmpB(e[2][1], 0) < 0 THEN CeilDiv(e[2][1], e[2][2]) ELSE BDiv(e[2][1], e[2][2])))
     \/ e[1] = "un" /\ Holds(LET a == e[2] IN IsRat(e[3], BNeg(a[1]), a[2]) /\ IsRat(e[4], BAbs(a[1]), a[2]) /\ e[5] = CmpB(a[1], 0) /\ BEq(e[6], BDiv(a[1], a[2])) /\ BEq(e[7], CeilDiv(a[1], a[2])))
     \/ e[1] = "inf" /\ Holds(e[4] = (IF e[2][2] = 0 /\ e[3][2] = 0 THEN CmpB(e[2][1], e[3][1]) ELSE IF e[2][2] = 0 THEN e[2][1] ELSE -e[3][1]))   \* one side is +-1/0
     \/ e[1] = "minmax" /\ Holds(LET le == BLe(BMul(e[2][1], e[3][2]), BMul(e[3][1], e[2][2])) IN e[4] = (IF le THEN e[2] ELSE e[3]) /\ e[5] = (IF le THEN e[3] ELSE e[2]))
     \* target t/2^s, bounds N, D: neighbours l < |t| <= r with nothing simpler between
     \/ e[1] = "approx" /\ Holds(LET neg == BLt(e[2], 0)  lo == IF neg THEN e[7] ELSE e[6]  hi == IF neg THEN e[6] ELSE e[7]
            L == <<BAbs(lo[1]), lo[2]>>  R == <<BAbs(hi[1]), hi[2]>>  t == BAbs(e[2])  d == e[3] IN
            /\ (neg => BLe(lo[1], 0) /\ BLe(hi[1], 0)) /\ (~neg => BLe(0, lo[1]) /\ BLe(0, hi[1]))
            /\ (BEq(t, 0) => BEq(L[1], 0)) /\ (~BEq(t, 0) => BLt(BMul(L[1], d), BMul(t, L[2])))
            /\ (BEq(R[2], 0) \/ BLe(BMul(t, R[2]), BMul(R[1], d)))
            /\ BEq(BSub(BMul(R[1], L[2]), BMul(L[1], R[2])), 1)
            /\ BLe(L[1], e[4]) /\ BLe(L[2], e[5]) /\ (BEq(R[2], 0) \/ (BLe(R[1], e[4]) /\ BLe(R[2], e[5])))
            /\ (BLt(e[4], BAdd(L[1], R[1])) \/ BLt(e[5], BAdd(L[2], R[2]))))
     \/ e[1] = "sbtree" /\ Holds(Len(e[3]) = 2^(e[2] + 1) /\ \A i \in 2..Len(e[3]) : e[3][i] = SbNode(i - 1, <<1, 0>>))
     \/ e[1] = "farey" /\ Holds(LET q == e[3] IN Len(q) = 2^(e[2] + 1) + 1 /\ q[1] = <<0, 1>> /\ q[Len(q)] = <<1, 1>>
            /\ SeqToSet(q) = {<<0, 1>>, <<1, 1>>} \cup {SbNode(i, <<1, 1>>) : i \in 1..(2^(e[2] + 1) - 1)}
            /\ \A i \in 1..(Len(q) - 1) : q[i][1] * q[i + 1][2] < q[i + 1][1] * q[i][2])
\* ------------------------------------------------------------ Stern-Brocot nodes: st = run-length path from 1/1, <<right?, steps>>
RECURSIVE SbFold(_, _, _)
SbFold(path, l, r) == IF path = <<>> THEN <<l, r>> ELSE LET k == path[1][2] IN
   IF path[1][1] THEN SbFold(Tail(path), <<BAdd(l[1], BMul(k, r[1])), BAdd(l[2], BMul(k, r[2]))>>, r)
   ELSE SbFold(Tail(path), l, <<BAdd(r[1], BMul(k, l[1])), BAdd(r[2], BMul(k, l[2]))>>)
SbRange(path) == SbFold(path, <<"0", "1">>, <<"1", "0">>)
SbVal(path) == LET b == SbRange(path) IN <<BAdd(b[1][1], b[2][1]), BAdd(b[1][2], b[2][2])>>
SbDepth(path) == BSum([i \in DOMAIN path |-> path[i][2]])
SbDown(path, d, k) == IF BEq(k, 0) THEN path ELSE IF path # <<>> /\ path[Len(path)][1] = d THEN [path EXCEPT ![Len(path)] = <<d, BAdd(@[2], k)>>] ELSE Append(path, <<d, BStr(k)>>)
RECURSIVE SbUp(_, _)
SbUp(path, k) == IF BEq(k, 0) THEN path ELSE LET z == path[Len(path)]  front == SubSeq(path, 1, Len(path) - 1) IN
   IF BLe(z[2], k) THEN SbUp(front, BSub(k, z[2])) ELSE Append(front, <<z[1], BSub(z[2], k)>>)
RECURSIVE SbLca(_, _)
SbLca(p, q) == IF p = <<>> \/ q = <<>> \/ p[1][1] # q[1][1] THEN <<>> ELSE IF BEq(p[1][2], q[1][2]) THEN <<p[1]>> \o SbLca(Tail(p), Tail(q)) ELSE <<<<p[1][1], BMin(p[1][2], q[1][2])>>>>
SbDist(p, q) == BSub(BAdd(SbDepth(p), SbDepth(q)), BMul(2, SbDepth(SbLca(p, q))))
SbAnc(p, q) == SbLca(p, q) = p                        \* p is q or above it
SbLt(p, q) == LET a == SbVal(p)  b == SbVal(q) IN BLt(BMul(a[1], b[2]), BMul(b[1], a[2]))
\* the path of a/b, defined by descending from the root (Euclid on the pair)
RECURSIVE SbPath(_, _, _)
SbPath(a, b, path) == IF BEq(a, b) THEN path ELSE IF BLt(a, b) THEN LET k == BDiv(BSub(b, 1), a) IN SbPath(a, BSub(b, BMul(k, a)), SbDown(path, FALSE, k))
                      ELSE LET k == BDiv(BSub(a, 1), b) IN SbPath(BSub(a, BMul(k, b)), b, SbDown(path, TRUE, k))
PathOf(a, b) == LET g == BGcd(a, b) IN SbPath(BDiv(a, g), BDiv(b, g), <<>>)
InOrd(p, q) == IF p = q THEN 0 ELSE IF SbLt(p, q) THEN -1 ELSE 1
SbtStep(e) ==
  \/ e[1] = "new" /\ st' = PathOf(e[2], e[3])
  \/ e[1] = "frompath" /\ st' = FoldLeft(LAMBDA acc, z : SbDown(acc, z[1], z[2]), <<>>, e[2])
  \/ e[1] = "down" /\ st' = SbDown(st, e[2], e[3])
  \/ e[1] = "up" /\ LET ok == BLe(0, e[2]) /\ BLe(e[2], SbDepth(st)) IN e[3] = ok /\ st' = IF ok THEN SbUp(st, e[2]) ELSE st
  \/ /\ e[1] = "to"        \* destination a/b, k, moved
     /\ LET q == PathOf(e[2], e[3])  k == e[4]  c == SbLca(st, q)  d1 == BSub(SbDepth(st), SbDepth(c))  ok == BLe(0, k) /\ BLe(k, SbDist(st, q)) IN
          e[5] = ok /\ st' = IF ~ok THEN st ELSE IF BLe(k, d1) THEN SbUp(st, k) ELSE SbUp(q, BSub(SbDist(st, q), k))
  \/ /\ e[1] = "dump"      \* value, inf, sup, depth, path
     /\ Holds(LET b == SbRange(st)  Same(x, y) == BEq(x[1], y[1]) /\ BEq(x[2], y[2]) IN Same(e[2], SbVal(st)) /\ Same(e[3], b[1]) /\ Same(e[4], b[2]) /\ BEq(e[5], SbDepth(st))
              /\ Len(e[6]) = Len(st) /\ \A i \in DOMAIN st : e[6][i][1] = st[i][1] /\ BEq(e[6][i][2], st[i][2]))
     /\ UNCHANGED st
  \/ /\ e[1] = "rel"       \* other a/b: value of lca, dist, this above other, this below other, in/pre/post order, < > <= >= == !=
     /\ Holds(LET q == PathOf(e[2], e[3])  v == SbVal(SbLca(st, q))  io == InOrd(st, q)  up == SbAnc(st, q)  dn == SbAnc(q, st) IN
          /\ BEq(e[4][1], v[1]) /\ BEq(e[4][2], v[2]) /\ BEq(e[5], SbDist(st, q)) /\ e[6] = up /\ e[7] = dn
          /\ e[8] = io /\ e[9] = (IF st = q THEN 0 ELSE IF up THEN -1 ELSE IF dn THEN 1 ELSE io) /\ e[10] = (IF st = q THEN 0 ELSE IF up THEN 1 ELSE IF dn THEN -1 ELSE io)
          /\ e[11] = <<io < 0, io > 0, io <= 0, io >= 0, io = 0, io # 0>>)
     /\ UNCHANGED st
  \/ /\ e[1] = "aux"       \* given nodes; root, nodes, adjacency of the auxiliary tree
     /\ Holds(LET G == {PathOf(e[2][i][1], e[2][i][2]) : i \in DOMAIN e[2]}
                  V == TLCEval({SbLca(x[1], x[2]) : x \in G \X G})  N == [i \in DOMAIN e[4] |-> PathOf(e[4][i][1], e[4][i][2])]
                  Par(v) == LET A == {u \in V : u # v /\ SbAnc(u, v)} IN CHOOSE u \in A : \A w \in A : SbAnc(w, u)
                  Idx(v) == CHOOSE i \in DOMAIN N : N[i] = v IN
          /\ {N[i] : i \in DOMAIN N} = V /\ Len(N) = Cardinality(V) /\ Len(e[5]) = Len(N)
          /\ (V # {} => \A v \in V : SbAnc(N[e[3] + 1], v))
          /\ \A i \in DOMAIN N : LET exp == {Idx(w) - 1 : w \in {u \in V : u # N[e[3] + 1] /\ Par(u) = N[i]}} \cup (IF N[i] = N[e[3] + 1] THEN {} ELSE {Idx(Par(N[i])) - 1}) IN SeqToSet(e[5][i]) = exp /\ Len(e[5][i]) = Cardinality(exp))
     /\ UNCHANGED st
=============================================================================
