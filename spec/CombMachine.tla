----------------------------- MODULE CombMachine ----------------------------
(* Combinatorial sequences and sums.  Each answer is compared with exact    *)
(* integers computed from the definition, or, where the argument is too     *)
(* large for that, with the recurrence that defines the sequence.           *)
(* P = <<modulus>>.                                                         *)
EXTENDS Common, Big, MState
CombInit(k, p) == [m |-> p[1]]
Upto(n) == [i \in 1..n |-> i]
Cong(x, y) == BEq(BMod(BSub(x, y), st.m), 0)
Res(x) == BEq(BMod(x, st.m), x)                       \* a canonical residue
SameSeq(r, exact) == Len(r) = Len(exact) /\ \A i \in DOMAIN r : Res(r[i]) /\ Cong(r[i], exact[i])
At(row, k) == IF k \in 0..(Len(row) - 1) THEN row[k + 1] ELSE 0
\* rows of triangles: the row n from the row n - 1
NextRow(row, n, F(_, _, _)) == TLCEval([k \in 1..(n + 1) |-> F(row, n, k - 1)])
Row(n, F(_, _, _)) == FoldLeft(LAMBDA r, i : NextRow(r, i, F), <<1>>, Upto(n))
BinF(r, n, k) == BAdd(At(r, k - 1), At(r, k))
S1F(r, n, k) == BAdd(At(r, k - 1), BMul(n - 1, At(r, k)))
S2F(r, n, k) == BAdd(At(r, k - 1), BMul(k, At(r, k)))
EulF(r, n, k) == BAdd(BMul(n - k, At(r, k - 1)), BMul(k + 1, At(r, k)))
BinRow(n) == Row(n, BinF)
S1Row(n) == Row(n, S1F)
S2Row(n) == Row(n, S2F)
EulRow(n) == IF n = 0 THEN <<>> ELSE SubSeq(Row(n, EulF), 1, n)       \* permutations of n with k ascents
Fact(n) == BProd(Upto(n))
Binom(n, r) == IF BLt(r, 0) \/ BLt(n, r) THEN 0 ELSE LET q == BInt(BMin(r, BSub(n, r))) IN BDiv(BProd([i \in 1..q |-> BSub(n, i - 1)]), Fact(q))
IsTable(t, n, from, F(_, _, _), cut) ==      \* rows from..n of a triangle
  /\ Len(t) = n + 1
  /\ FoldLeft(LAMBDA acc, i : LET row == NextRow(acc[1], i, F) IN <<row, acc[2] /\ (i < from \/ SameSeq(t[i + 1], SubSeq(row, 1, i + 1 - cut)))>>,
              <<<<1>>, from > 0 \/ SameSeq(t[1], <<1>>)>>, Upto(n))[2]
\* B(i+1) = sum_j C(i, j) B(j)
IsBell(n, b) == Len(b) = n + 1 /\ BEq(b[1], 1) /\ (\A i \in DOMAIN b : Res(b[i]))
                /\ FoldLeft(LAMBDA acc, i : LET row == NextRow(acc[1], i, BinF) IN <<row, acc[2] /\ (i >= n \/ Cong(b[i + 2], BDot(row, SubSeq(b, 1, i + 1))))>>, <<<<1>>, n = 0 \/ BEq(b[2], 1)>>, Upto(n))[2]
\* sum_{j <= i} C(i+1, j) B(j) = 0 for i >= 1
IsBernoulli(n, b) == Len(b) = n + 1 /\ BEq(b[1], 1) /\ (\A i \in DOMAIN b : Res(b[i]))
                     /\ FoldLeft(LAMBDA acc, i : LET row == NextRow(acc[1], i, BinF) IN <<row, acc[2] /\ (i = 1 \/ Cong(0, BDot(SubSeq(row, 1, i), SubSeq(b, 1, i))))>>, <<<<1>>, TRUE>>, Upto(n + 1))[2]
IsMontmort(n, d) == LET x == FoldLeft(LAMBDA s, i : Append(s, IF i = 1 THEN 0 ELSE BMul(i - 1, BAdd(s[i], s[i - 1]))), <<1>>, Upto(n)) IN SameSeq(d, x)
\* partitions with parts 1..n: adding the part k
Partitions(n) == FoldLeft(LAMBDA f, k : TLCEval(FoldLeft(LAMBDA g, i : IF i < k THEN g ELSE [g EXCEPT ![i + 1] = BAdd(@, g[i - k + 1])], f, Upto(n))), [i \in 1..(n + 1) |-> IF i = 1 THEN 1 ELSE 0], Upto(n))
\* S1[n, n-k] is a polynomial of degree 2k in n: interpolate it through n = 0..2k
S1Small(n, k) == IF k > n THEN 0 ELSE At(S1Row(n), n - k)
S1Ext(n, k) == LET d == 2 * k  y == [i \in 1..(d + 1) |-> S1Small(i - 1, k)]
                   L(i) == BMul(BProd([j \in 1..(d + 1) |-> IF j = i THEN 1 ELSE BSub(n, j - 1)]), BModInv(BMod(BProd([j \in 1..(d + 1) |-> IF j = i THEN 1 ELSE i - j]), st.m), st.m))
               IN BSum([i \in 1..(d + 1) |-> BMul(y[i], L(i))])
PowSum(n, p) == BSum([i \in 1..n |-> BPow(i, p)])
IRSum(n, d, r) == BSum([i \in 1..n |-> BMul(IF d = 0 THEN 1 ELSE BPow(i - 1, d), BPow(r, i - 1))])      \* sum_{i < n} i^d r^i
BinSum(a, b, m, r) == LET row == BinRow(MaxOf(m, 0)) IN IF m < 0 THEN 0 ELSE BSum([i \in 1..(m + 1) |-> IF i - 1 \in a..b THEN BMul(row[i], BPow(r, i - 1)) ELSE 0])
\* n-step walks on Z and Z^2 by number of ways to end at a point
Walk1(n) == FoldLeft(LAMBDA f, i : TLCEval([x \in (-n - 1)..(n + 1) |-> IF Abs(x) > n THEN 0 ELSE f[x - 1] + f[x + 1]]), [x \in (-n - 1)..(n + 1) |-> IF x = 0 THEN 1 ELSE 0], Upto(n))
Walk2(n) == LET D == (-n - 1)..(n + 1) IN FoldLeft(LAMBDA f, i : TLCEval([q \in D \X D |-> IF Abs(q[1]) > n \/ Abs(q[2]) > n THEN 0 ELSE f[<<q[1] - 1, q[2]>>] + f[<<q[1] + 1, q[2]>>] + f[<<q[1], q[2] - 1>>] + f[<<q[1], q[2] + 1>>]]),
                   TLCEval([q \in D \X D |-> IF q = <<0, 0>> THEN 1 ELSE 0]), Upto(n))
Walk1At(n, x) == IF Abs(x) > n THEN 0 ELSE Walk1(n)[x]
Walk2At(n, x, y) == IF Abs(x) > n \/ Abs(y) > n THEN 0 ELSE Walk2(n)[<<x, y>>]
Multinom(n, ds) == IF n < 0 \/ (\E i \in DOMAIN ds : ds[i] < 0) \/ SumSeq(ds) > n THEN 0 ELSE BDiv(Fact(n), BMul(BProd([i \in DOMAIN ds |-> Fact(ds[i])]), Fact(n - SumSeq(ds))))
CombOk(e) ==
  CASE e[1] = "bell" -> IsBell(e[2], e[3])
    [] e[1] = "bernoulli" -> IsBernoulli(e[2], e[3])
    [] e[1] = "montmort" -> IsMontmort(e[2], e[3])
    [] e[1] = "partition" -> SameSeq(e[3], Partitions(e[2]))
    [] e[1] = "s1" -> SameSeq(e[3], S1Row(e[2]))
    [] e[1] = "s1rev" -> SameSeq(e[3], Reverse(S1Row(e[2])))
    [] e[1] = "s1k" -> Len(e[4]) = e[3] + 1 /\ LET row == Reverse(S1Row(e[2])) IN \A i \in 0..e[3] : Res(e[4][i + 1]) /\ Cong(e[4][i + 1], At(row, i))
    [] e[1] = "s1kbig" -> Len(e[4]) = e[3] + 1 /\ \A i \in 0..e[3] : Res(e[4][i + 1]) /\ Cong(e[4][i + 1], S1Ext(e[2], i))
    [] e[1] = "s2" -> SameSeq(e[3], S2Row(e[2]))
    [] e[1] = "eulerian" -> SameSeq(e[3], EulRow(e[2]))
    [] e[1] = "bintab" -> \* a square table, zero above the diagonal
         Len(e[3]) = e[2] + 1 /\ IsTable([i \in DOMAIN e[3] |-> SubSeq(e[3][i], 1, i)], e[2], 0, BinF, 0) /\ \A i \in DOMAIN e[3] : Len(e[3][i]) = e[2] + 1 /\ \A j \in (i + 1)..(e[2] + 1) : BEq(e[3][i][j], 0)
    [] e[1] = "s1tab" -> IsTable(e[3], e[2], 0, S1F, 0)
    [] e[1] = "s2tab" -> IsTable(e[3], e[2], 0, S2F, 0)
    [] e[1] = "eultab" -> IF e[2] = 0 THEN e[3] = <<>> ELSE IsTable(e[3], e[2], 1, EulF, 1)
    [] e[1] = "binom" -> Res(e[4]) /\ Cong(e[4], Binom(e[2], e[3]))
    [] e[1] = "pascal" -> Res(e[2]) /\ Cong(e[2], BAdd(e[3], e[4]))                \* C(n+1,k), C(n,k-1), C(n,k)
    [] e[1] = "s1small" -> \A k \in -1..(e[2] + 1) : LET row == S1Row(e[2]) IN Res(e[3][k + 2]) /\ Cong(e[3][k + 2], At(row, k))
    [] e[1] = "s2small" -> \A k \in -1..(e[2] + 1) : LET row == S2Row(e[2]) IN Res(e[3][k + 2]) /\ Cong(e[3][k + 2], At(row, k))
    [] e[1] = "recur" -> Res(e[3]) /\ Cong(e[3], BAdd(e[4], BMul(e[2], e[5])))     \* T(n+1,k) = T(n,k-1) + c T(n,k)
    [] e[1] = "enum" -> SameSeq(e[3], BinRow(e[2]))
    [] e[1] = "binoms" -> Len(e[2]) = Len(e[3]) /\ \A i \in DOMAIN e[2] : Res(e[3][i]) /\ Cong(e[3][i], BDiv(BProd([j \in 1..e[2][i][2] |-> BSub(e[2][i][1], j - 1)]), Fact(e[2][i][2])))
    [] e[1] = "powers" -> Len(e[4]) = e[2] + 1 /\ \A i \in 0..e[2] : Res(e[4][i + 1]) /\ Cong(e[4][i + 1], IF BEq(e[3], 0) THEN 1 ELSE BPowMod(i, e[3], st.m))
    [] e[1] = "powsum" -> Len(e[4]) = e[3] + 1 /\ \A p \in 0..e[3] : Res(e[4][p + 1]) /\ Cong(e[4][p + 1], PowSum(e[2], p))
    [] e[1] = "powsumd" -> Len(e[4]) = e[3] + 1 /\ Len(e[5]) = e[3] + 1 /\ \A p \in 0..e[3] : Cong(BSub(e[4][p + 1], e[5][p + 1]), BPow(e[2], p))
    [] e[1] = "binprefix" -> Len(e[3]) = Len(e[4]) /\ \A i \in DOMAIN e[3] : Res(e[4][i]) /\ Cong(e[4][i], BinSum(0, e[3][i][1], e[3][i][2], e[2]))
    [] e[1] = "binrange" -> Len(e[3]) = Len(e[4]) /\ \A i \in DOMAIN e[3] : Res(e[4][i]) /\ Cong(e[4][i], BinSum(e[3][i][1], e[3][i][2], e[3][i][3], e[2]))
    [] e[1] = "fac" -> Res(e[3]) /\ Cong(e[3], Fact(e[2]))
    [] e[1] = "facbig" -> Res(e[3]) /\ BLe(st.m, e[2]) /\ Cong(e[3], 0)        \* n! for n at least the modulus
    [] e[1] = "facinv" -> Res(e[3]) /\ Cong(BMul(e[3], Fact(e[2])), 1)
    [] e[1] = "facstep" -> Res(e[3]) /\ Cong(e[3], BMul(e[2], e[4]))              \* n!, (n-1)!
    [] e[1] = "wilson" -> Cong(e[2], -1)
    [] e[1] = "inverse" -> Cong(BMul(e[2], e[3]), 1)
    [] e[1] = "perm" -> Res(e[4]) /\ Cong(e[4], IF e[2] < 0 \/ e[3] < 0 \/ e[2] < e[3] THEN 0 ELSE BProd([i \in 1..e[3] |-> e[2] - i + 1]))
    [] e[1] = "multi0" -> BLt(e[2], FoldLeft(LAMBDA a, x : BAdd(a, x), 0, e[3])) /\ e[4] = 0      \* parts that sum to more than the whole
    [] e[1] = "multinom" -> Res(e[4]) /\ Cong(e[4], Multinom(e[2], e[3]))
    [] e[1] = "walk1" -> Res(e[4]) /\ Cong(e[4], Walk1At(e[2], e[3]))
    [] e[1] = "walk2" -> Res(e[5]) /\ Cong(e[5], Walk2At(e[2], e[3], e[4]))
    [] e[1] = "differences" -> SameSeq(e[3], [i \in DOMAIN e[2] |-> BProd([j \in DOMAIN e[2] |-> IF j = i THEN 1 ELSE BSub(e[2][i], e[2][j])])])
    [] e[1] = "irsum" -> Res(e[5]) /\ Cong(e[5], IRSum(e[2], e[3], e[4]))
    [] e[1] = "irsums" -> Len(e[6]) = e[5] /\ \A i \in DOMAIN e[6] : Res(e[6][i]) /\ Cong(e[6][i], IRSum(e[2] + i - 1, e[3], e[4]))
    [] e[1] = "irstep" -> Cong(BSub(e[5], e[6]), BMul(BPowMod(BMod(e[2], st.m), e[3], st.m), BPowMod(e[4], e[2], st.m)))         \* sum up to n, less the sum up to n - 1 terms
    [] e[1] = "irinf" -> LET d == e[2]  r == e[3]  row == EulRow(d) IN      \* sum (1-r)^(d+1) = sum_k A(d,k) r^(k+1)
         Cong(BMul(e[4], BPow(BSub(1, r), d + 1)), IF d = 0 THEN 1 ELSE BSum([i \in 1..d |-> BMul(row[i], BPow(r, i))]))
    [] e[1] = "embed" -> \* header numbers and (iB)! for every block
         LET m == e[2]  b == e[3]  d == ((m - 1) \div b) + 1 IN e[4] = <<m, b, d>> /\ SameSeq(e[5], [i \in 1..d |-> Fact((i - 1) * b)])
    [] OTHER -> FALSE
CombNext(k, p, e) == UNCHANGED st /\ Holds(CombOk(e))
=============================================================================
