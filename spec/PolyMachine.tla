----------------------------- MODULE PolyMachine ----------------------------
(* Polynomials and power series over Z/pZ, as sequences of coefficients,    *)
(* lowest degree first.  Most results are judged by the identity defining   *)
(* them (f * inv f = 1, (exp f)' = f' exp f, ...), not by an algorithm.     *)
EXTENDS Common, Big, MState
Rd(x, m) == BInt(BMod(x, m))
Co(f, i) == IF i >= 0 /\ i < Len(f) THEN f[i + 1] ELSE 0
PEq(f, g) == \A i \in 0..(MaxOf(Len(f), Len(g)) - 1) : Co(f, i) = Co(g, i)
RECURSIVE TrimN(_, _)
TrimN(f, n) == IF n = 0 \/ f[n] # 0 THEN n ELSE TrimN(f, n - 1)
Trim(f) == SubSeq(f, 1, TrimN(f, Len(f)))
Deg(f) == TrimN(f, Len(f)) - 1
PAdd(f, g, p) == [i \in 1..MaxOf(Len(f), Len(g)) |-> Rd(BAdd(Co(f, i - 1), Co(g, i - 1)), p)]
PSub(f, g, p) == [i \in 1..MaxOf(Len(f), Len(g)) |-> Rd(BSub(Co(f, i - 1), Co(g, i - 1)), p)]
PScale(f, c, p) == [i \in 1..Len(f) |-> Rd(BMul(f[i], c), p)]
\* coefficient k of a * b, rb = Reverse(b)
CoefR(a, rb, k) == LET n == Len(a)  m == Len(rb)  lo == MaxOf(0, k - m + 1)  hi == MinOf(k, n - 1) IN
  IF lo > hi THEN 0 ELSE BDot(SubSeq(a, lo + 1, hi + 1), SubSeq(rb, m - k + lo, m - k + hi))
PMulN(a, b, n, p) == LET rb == TLCEval(Reverse(b)) IN TLCEval([k \in 1..n |-> Rd(CoefR(a, rb, k - 1), p)])
PMul(a, b, p) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE PMulN(a, b, Len(a) + Len(b) - 1, p)
\* a * b = c, coefficients from lo to hi
MulIs(a, b, c, lo, hi, p) == LET rb == TLCEval(Reverse(b)) IN \A k \in lo..hi : Rd(CoefR(a, rb, k), p) = Co(c, k)
\* sparse operands <<exponent, coefficient>>: out lists the non-zero coefficients of the product below degree n
SpMulIs(f, g, n, out, p) == LET I == (1..Len(f)) \X (1..Len(g))
    C(k) == LET Q == SetToSeq({ij \in I : f[ij[1]][1] + g[ij[2]][1] = k}) IN FoldLeft(LAMBDA acc, ij : Rd(BAdd(acc, BMul(f[ij[1]][2], g[ij[2]][2])), p), 0, Q)
    E == TLCEval({<<k, C(k)>> : k \in {f[ij[1]][1] + g[ij[2]][1] : ij \in I} \cap (0..(n - 1))})
  IN {out[i] : i \in 1..Len(out)} = {kc \in E : kc[2] # 0}
PDiff(f, p) == [i \in 1..(Len(f) - 1) |-> Rd(BMul(f[i + 1], i), p)]
Sh(f, z) == SubSeq(f, z + 1, Len(f))
Fit(f, n) == [i \in 1..n |-> Co(f, i - 1)]
Lz(f) == IF \E i \in 1..Len(f) : f[i] # 0 THEN Min({i \in 1..Len(f) : f[i] # 0}) - 1 ELSE Len(f)
PEval(f, x, p) == FoldLeft(LAMBDA acc, c : Rd(BAdd(BMul(acc, x), c), p), 0, Reverse(f))
RECURSIVE PRemR(_, _, _, _)      \* f trimmed, deg f >= deg g
PRemR(f, g, iv, p) == LET d == Len(f) - Len(g) IN IF d < 0 THEN f ELSE LET q == Rd(BMul(f[Len(f)], iv), p) IN
  PRemR(TLCEval(Trim([i \in 1..Len(f) |-> IF i <= d THEN f[i] ELSE Rd(BSub(f[i], BMul(q, g[i - d])), p)])), g, iv, p)
PRem(f, g, p) == LET h == TLCEval(Trim(g)) IN PRemR(TLCEval(Trim(f)), h, BModInv(h[Len(h)], p), p)
IsDivMod(f, g, q, r, p) == Deg(r) < Deg(g) /\ PEq(f, PAdd(PMul(q, g, p), r, p))
IsInv(f, n, g, p) == Len(g) = n /\ MulIs(f, g, <<1>>, 0, n - 1, p)
IsLog(f, n, g, p) == Len(g) = n /\ Co(g, 0) = 0 /\ MulIs(f, PDiff(g, p), PDiff(f, p), 0, n - 2, p)
IsExp(f, n, g, p) == Len(g) = n /\ Co(g, 0) = 1 /\ MulIs(PDiff(f, p), g, PDiff(g, p), 0, n - 2, p)
IsPow(f, k, n, g, p) == LET z == Lz(f) IN Len(g) = n /\
  (IF BEq(k, 0) THEN PEq(g, <<1>>)
   ELSE IF z = Len(f) \/ BLe(n, BMul(k, z)) THEN \A i \in 1..n : g[i] = 0
   ELSE LET s == BInt(BMul(k, z))  G == Sh(g, s)  F == Sh(f, z) IN
        /\ \A i \in 1..s : g[i] = 0
        /\ G[1] = BInt(BPowMod(F[1], k, p))
        /\ MulIs(F, PDiff(G, p), Fit(PScale(PMul(Fit(PDiff(F, p), Len(G)), G, p), BMod(k, p), p), Len(G) - 1), 0, Len(G) - 2, p))
QR(a, p) == a = 0 \/ p = 2 \/ BEq(BPowMod(a, (p - 1) \div 2, p), 1)
\* r = <<>>: no square root
IsSqrt(f, n, r, p) == LET z == Lz(f) IN
  IF z = Len(f) THEN r = <<[i \in 1..n |-> 0]>>
  ELSE LET ok == (z % 2) = 0 /\ QR(f[z + 1], p) IN
       IF r = <<>> THEN ~ok
       ELSE Len(r) = 1 /\ Len(r[1]) = n /\ (z \div 2 >= n \/ ok)
            /\ \A i \in 1..MinOf(n, z \div 2) : r[1][i] = 0
            /\ (z \div 2 < n => MulIs(r[1], r[1], f, 0, n - 1 + (z \div 2), p))
PolyPow(f, k, p) == FoldLeft(LAMBDA a, i : PMul(a, f, p), <<1>>, [i \in 1..k |-> i])
PProd(fs, p) == FoldLeft(LAMBDA a, f : PMul(a, f, p), <<1>>, fs)
\* f(g(x)) mod x^n
Comp(f, g, n, p) == FoldLeft(LAMBDA acc, c : LET h == PMulN(acc, g, n, p) IN [i \in 1..n |-> IF i = 1 THEN Rd(BAdd(h[1], c), p) ELSE h[i]], [i \in 1..n |-> 0], Reverse(f))
LagrW(xs, i, t, p) == LET J == [j \in 1..(Len(xs) - 1) |-> IF j < i THEN xs[j] ELSE xs[j + 1]] IN
  BMul(BProd([j \in 1..Len(J) |-> BMod(BSub(t, J[j]), p)]), BModInv(BProd([j \in 1..Len(J) |-> BSub(xs[i], J[j])]), p))
Lagr(xs, ys, t, p) == Rd(BSum([i \in 1..Len(xs) |-> BMul(ys[i], LagrW(xs, i, t, p))]), p)
\* a rook attacks along its column and along the contiguous run of board cells of its row, named by its first column
RunOf(h, i, r) == <<Min({l \in 1..i : \A j \in l..i : h[j] >= r}), r>>
RECURSIVE RookR(_, _, _)      \* placements per number of rooks on the columns i.., the runs in used taken
RookR(h, i, used) == IF i > Len(h) THEN [k \in 0..Len(h) |-> IF k = 0 THEN 1 ELSE 0]
  ELSE LET a == RookR(h, i + 1, used)  R == {RunOf(h, i, r) : r \in 1..h[i]} \ used  T == SetToSeq(R)
           B == TLCEval([t \in 1..Len(T) |-> RookR(h, i + 1, used \cup {T[t]})])
       IN TLCEval([k \in 0..Len(h) |-> a[k] + (IF k = 0 THEN 0 ELSE SumSeq([t \in 1..Len(T) |-> B[t][k - 1]]))])
IsRook(h, r, p) == LET a == RookR(h, 1, {}) IN \A k \in 0..MaxOf(Len(h), Len(r) - 1) : Co(r, k) = (IF k <= Len(h) THEN Rd(a[k], p) ELSE 0)
SubsetSums(n, a, p) == FoldLeft(LAMBDA acc, e : [k \in 1..(n + 1) |-> Rd(BAdd(acc[k], Co(acc, k - 1 - e)), p)], [k \in 1..(n + 1) |-> IF k = 1 THEN 1 ELSE 0], a)
\* the first n coefficients of P / Q
RECURSIVE SerR(_, _, _, _, _, _)
SerR(P, Q, iv, acc, n, p) == IF Len(acc) = n THEN acc ELSE LET k == Len(acc)  d == MinOf(k, Len(Q) - 1) IN
  SerR(P, Q, iv, Append(acc, Rd(BMul(iv, BSub(Co(P, k), BDot([j \in 1..d |-> Q[j + 1]], [j \in 1..d |-> acc[k - j + 1]]))), p)), n, p)
Ser(P, Q, n, p) == SerR(P, Q, BModInv(Q[1], p), <<>>, n, p)
RECURSIVE XPow(_, _, _)     \* x^e mod g, g of degree >= 1
XPow(e, g, p) == IF BEq(e, 0) THEN PRem(<<1>>, g, p) ELSE LET h == XPow(BDiv(e, 2), g, p)  q == PRem(PMul(h, h, p), g, p) IN IF BBit(e, 0) = 1 THEN PRem(<<0>> \o q, g, p) ELSE q
\* [x^n] P/Q for any n: past the degree of P the coefficients obey Q's recurrence
CoefPQ(P, Q, n, p) == LET d == Deg(Q)  s == MaxOf(0, Deg(P) - d + 1)  h == Ser(P, Q, s + d + 1, p) IN
  IF BLt(n, s + d) THEN h[BInt(n) + 1]
  ELSE IF d = 0 THEN 0
  ELSE LET x == XPow(BSub(n, s), Reverse(Trim(Q)), p) IN Rd(BDot(Fit(x, d), SubSeq(h, s + 1, s + d)), p)
\* shortest recurrence of a sequence: order L works, order L - 1 does not
RecOk(s, c, p) == LET L == Len(c) - 1 IN \A i \in (L + 1)..Len(s) : s[i] = Rd(BDot([j \in 1..L |-> c[j + 1]], [j \in 1..L |-> s[i - j]]), p)
RECURSIVE ElimRank(_, _, _)    \* rank of a sequence of rows of width w
ElimRank(A, c, p) == IF A = <<>> \/ c > Len(A[1]) THEN 0 ELSE
  LET R == {i \in 1..Len(A) : A[i][c] # 0} IN IF R = {} THEN ElimRank(A, c + 1, p)
  ELSE LET q == Min(R)  iv == BModInv(A[q][c], p)
           B == TLCEval([i \in 1..(Len(A) - 1) |-> LET r == IF i < q THEN A[i] ELSE A[i + 1] IN IF r[c] = 0 THEN r ELSE LET w == BMul(r[c], iv) IN [j \in 1..Len(r) |-> Rd(BSub(r[j], BMul(w, A[q][j])), p)]])
       IN 1 + ElimRank(B, c + 1, p)
NoRec(s, L, p) == LET n == Len(s)  M == [i \in 1..(n - L) |-> [j \in 1..L |-> s[L + i - j]]]  A == [i \in 1..(n - L) |-> Append(M[i], s[L + i])] IN
  IF L = 0 THEN \E i \in 1..n : s[i] # 0 ELSE ElimRank(A, 1, p) > ElimRank(M, 1, p)
IsBM(s, c, p) == c[1] = 1 /\ RecOk(s, c, p) /\ (Len(c) > 1 => NoRec(s, Len(c) - 2, p))
(* f(x) f(r x) ... f(r^(c-1) x) mod x^n, by definition, and by halving the range of exponents *)
Dil(f, q, p) == [i \in 1..Len(f) |-> Rd(BMul(f[i], BPowMod(q, i - 1, p)), p)]
ProdRk(f, r, c, n, p) == FoldLeft(LAMBDA acc, k : PMulN(acc, Dil(f, BPowMod(r, k - 1, p), p), n, p), Fit(<<1>>, n), [k \in 1..c |-> k])
RECURSIVE ProdRkD(_, _, _, _, _)
ProdRkD(f, r, c, n, p) == IF c = 0 THEN Fit(<<1>>, n) ELSE LET h == TLCEval(ProdRkD(f, r, c \div 2, n, p))  q == PMulN(h, Dil(h, BPowMod(r, c \div 2, p), p), n, p) IN
  IF (c % 2) = 1 THEN PMulN(q, Dil(f, BPowMod(r, c - 1, p), p), n, p) ELSE q
PolyStep(e, p) ==
  /\ UNCHANGED st
  /\ \/ e[1] = "add" /\ Holds(PEq(e[4], PAdd(e[2], e[3], p)))
     \/ e[1] = "sub" /\ Holds(PEq(e[4], PSub(e[2], e[3], p)))
     \/ e[1] = "mul" /\ Holds(PEq(e[4], PMul(e[2], e[3], p)))
     \/ e[1] = "spmul" /\ Holds(SpMulIs(e[2], e[3], e[4], e[5], p))
     \/ e[1] = "muln" /\ Holds(PEq(e[5], PMulN(e[2], e[3], e[4], p)))
     \/ e[1] = "scale" /\ Holds(PEq(e[4], PScale(e[2], e[3], p)))
     \/ e[1] = "divmod" /\ Holds(IsDivMod(e[2], e[3], e[4], e[5], p))
     \/ e[1] = "shl" /\ Holds(PEq(e[4], Const(e[3], 0) \o e[2]))
     \/ e[1] = "shr" /\ Holds(PEq(e[4], Sh(e[2], e[3])))
     \/ e[1] = "fit" /\ Holds(e[4] = Fit(e[2], e[3]))
     \/ e[1] = "same" /\ Holds(PEq(e[3], e[2]))
     \/ e[1] = "trim" /\ Holds(e[3] = Trim(e[2]))
     \/ e[1] = "co" /\ Holds(e[4] = Co(e[2], e[3]))
     \/ e[1] = "eq" /\ Holds((e[4] <=> PEq(e[2], e[3])) /\ (e[5] <=> ~PEq(e[2], e[3])))
     \/ e[1] = "diff" /\ Holds(PEq(e[3], PDiff(e[2], p)))
     \/ e[1] = "intg" /\ Holds(Co(e[3], 0) = 0 /\ PEq(PDiff(e[3], p), e[2]))
     \/ e[1] = "intn" /\ Holds(e[3] # <<>> /\ Co(e[3], 0) = 0 /\ PEq(PDiff(e[3], p), SubSeq(e[2], 1, Len(e[2]) - 1)))
     \/ e[1] = "eval" /\ Holds(e[4] = PEval(e[2], e[3], p))
     \/ e[1] = "inv" /\ Holds(IsInv(e[2], e[3], e[4], p))
     \/ e[1] = "log" /\ Holds(IsLog(e[2], e[3], e[4], p))
     \/ e[1] = "exp" /\ Holds(IsExp(e[2], e[3], e[4], p))
     \/ e[1] = "pow" /\ Holds(IsPow(e[2], e[3], e[4], e[5], p))
     \/ e[1] = "sqrt" /\ Holds(IsSqrt(e[2], e[3], e[4], p))
     \/ e[1] = "prod" /\ Holds(PEq(e[3], PProd(e[2], p)))
     \/ e[1] = "comp" /\ Holds(e[5] = Comp(e[2], e[3], e[4], p))
     \/ e[1] = "cinv" /\ Holds(Len(e[4]) = e[3] /\ (e[3] >= 1 => Co(e[4], 0) = 0 /\ Comp(e[2], e[4], e[3], p) = [i \in 1..e[3] |-> IF i = 2 THEN 1 ELSE 0]))
     \/ e[1] = "cexp" /\ Holds(Len(e[4]) = e[3] /\ \A j \in 0..(e[3] - 1) : Rd(BMul(e[4][j + 1], BProd([t \in 1..j |-> t])), p) = Rd(BSum([i \in 1..Len(e[2]) |-> BMul(e[2][i], BPowMod(i - 1, j, p))]), p))
     \/ e[1] = "translate" /\ Holds(Len(e[4]) <= MaxOf(1, Len(e[2])) /\ \A t \in 0..(Len(e[2]) - 1) : PEval(e[4], t, p) = PEval(e[2], BAdd(t, e[3]), p))
     \/ e[1] = "newton" /\ Holds(Len(e[4]) = Len(e[3]) /\ PEq(e[2], FoldLeft(LAMBDA acc, i : PAdd(PMul(acc, <<Rd(BNeg(e[3][i]), p), 1>>, p), <<e[4][i]>>, p), <<>>, [i \in 1..Len(e[3]) |-> Len(e[3]) + 1 - i])))
     \/ e[1] = "lagr" /\ Holds(e[5] = Lagr(e[2], e[3], e[4], p))
     \/ e[1] = "interp" /\ Holds(Deg(e[4]) < Len(e[2]) /\ \A i \in 1..Len(e[2]) : PEval(e[4], e[2][i], p) = e[3][i])
     \/ e[1] = "meval" /\ Holds(Len(e[4]) = Len(e[3]) /\ \A i \in 1..Len(e[3]) : e[4][i] = PEval(e[2], e[3][i], p))
     \/ e[1] = "chirp" /\ Holds(Len(e[6]) = e[5] /\ \A k \in 0..(e[5] - 1) : e[6][k + 1] = PEval(e[2], BMod(BMul(e[3], BPowMod(e[4], k, p)), p), p))
     \/ e[1] = "shift" /\ Holds(Len(e[5]) = e[4] /\ \A k \in 0..(e[4] - 1) : e[5][k + 1] = Lagr([i \in 1..Len(e[2]) |-> i - 1], e[2], BAdd(e[3], k), p))
     \/ e[1] = "pgcd" /\ Holds(LET a == e[2]  b == e[3]  x == e[4]  y == e[5]  g == Trim(e[6]) IN
            /\ PEq(PAdd(PMul(a, x, p), PMul(b, y, p), p), g)
            /\ (IF Trim(a) = <<>> /\ Trim(b) = <<>> THEN g = <<>> ELSE g # <<>> /\ g[Len(g)] = 1 /\ PRem(a, g, p) = <<>> /\ PRem(b, g, p) = <<>>))
     \/ e[1] = "pgcdinv" /\ Holds(LET g == Trim(e[5]) IN PRem(PSub(PMul(e[2], e[4], p), g, p), e[3], p) = <<>> /\ g[Len(g)] = 1 /\ PRem(e[2], g, p) = <<>> /\ PRem(e[3], g, p) = <<>>)
     \/ e[1] = "prodrk" /\ Holds(e[6] = ProdRk(e[2], e[3], e[4], e[5], p))
     \/ e[1] = "prodrkb" /\ Holds(e[6] = ProdRkD(e[2], e[3], e[4], e[5], p))
     \/ e[1] = "quot" /\ Holds(Len(e[5]) = e[4] /\ LET z == Lz(e[3]) IN MulIs(Sh(e[3], z), e[5], Sh(e[2], z), 0, e[4] - 1, p))          \* num / den as a series
     \/ e[1] = "frac" /\ Holds(PEq(PMul(e[4][1], e[3], p), PMul(e[2], e[4][2], p)))      \* e4 = num/den of the result, e2/e3 expected
     \/ e[1] = "rook" /\ Holds(IsRook(e[2], e[3], p))
     \/ e[1] = "ssum" /\ Holds(e[4] = SubsetSums(e[2], e[3], p))
     \/ e[1] = "coef" /\ Holds(e[5] = CoefPQ(e[2], e[3], e[4], p))
     \/ e[1] = "recur" /\ Holds(e[5] = (LET Q == <<1>> \o [i \in 1..Len(e[3]) |-> Rd(BNeg(e[3][i]), p)] IN IF e[3] = <<>> THEN 0 ELSE CoefPQ(PMulN(e[2], Q, Len(e[3]), p), Q, e[4], p)))
     \/ e[1] = "bm" /\ Holds(IsBM(e[2], e[3], p))
     \/ e[1] = "spco" /\ Holds(\A i \in DOMAIN e[3] : e[3][i][2] = Rd(BSum([j \in 1..Len(e[2]) |-> IF e[2][j][1] = e[3][i][1] THEN e[2][j][2] ELSE 0]), p))
\* convolution of wide integers: m = 0 exact, otherwise modulo m
IsWide(a, b, c, m) == LET rb == TLCEval(Reverse(b)) IN (IF a = <<>> \/ b = <<>> THEN c = <<>> ELSE Len(c) = Len(a) + Len(b) - 1 /\ \A k \in 0..(Len(c) - 1) : BEq(c[k + 1], IF BEq(m, 0) THEN CoefR(a, rb, k) ELSE BMod(CoefR(a, rb, k), m)))
\* the same for a long sequence given by its non-zero entries <<i, a_i>>: sampled coefficients <<k, c_k>> and the sum of all of them
IsWideAt(n, sa, b, len, sc, tot, m) ==
  LET At(k) == LET S == SelectSeq(sa, LAMBDA x : x[1] <= k /\ k - x[1] < Len(b)) IN BMod(BSum([j \in DOMAIN S |-> BMul(S[j][2], b[k - S[j][1] + 1])]), m) IN
  /\ len = n + Len(b) - 1
  /\ \A q \in DOMAIN sc : BEq(sc[q][2], At(sc[q][1]))
  /\ BEq(tot, BMod(BMul(BSum([j \in DOMAIN sa |-> sa[j][2]]), BSum(b)), m))
WideStep(e, m) == UNCHANGED st /\ CASE e[1] = "conv" -> Holds(IsWide(e[2], e[3], e[4], m)) [] e[1] = "convat" -> Holds(IsWideAt(e[2], e[3], e[4], e[5], e[6], e[7], m)) [] OTHER -> FALSE
(* On-line operations: each append reveals one more coefficient of the      *)
(* input(s) and must return the next one of the result.                     *)
RelInit(p) == [f |-> <<>>, g |-> <<>>]
Cf(a, b, k) == CoefR(a, Reverse(b), k)
RelStep(e, p) == LET kind == p[2]  m == p[1]  i == Len(st.g) IN
  \/ /\ e[1] = "mul2" /\ kind = "mul" /\ st' = [f |-> Append(st.f, e[2]), g |-> Append(st.g, e[3])]
     /\ Holds(e[4] = Rd(Cf(Append(st.f, e[2]), Append(st.g, e[3]), i), m))
  \/ /\ e[1] = "mul1" /\ kind = "semi" /\ st' = [f |-> p[3], g |-> Append(st.g, e[2])]
     /\ Holds(e[3] = Rd(Cf(p[3], Append(st.g, e[2]), i), m))
  \/ /\ e[1] = "app" /\ kind \in {"inv", "exp", "log", "pow", "sqrt"} /\ st' = [f |-> Append(st.f, e[2]), g |-> Append(st.g, e[3])]
     /\ Holds(LET f == Append(st.f, e[2])  g == Append(st.g, e[3]) IN
        CASE kind = "inv" -> Rd(Cf(f, g, i), m) = (IF i = 0 THEN 1 ELSE 0)
          [] kind = "exp" -> IF i = 0 THEN e[3] = 1 ELSE Rd(BMul(i, e[3]), m) = Rd(Cf(PDiff(f, m), g, i - 1), m)
          [] kind = "log" -> IF i = 0 THEN e[3] = 0 ELSE Rd(Cf(PDiff(g, m), f, i - 1), m) = Rd(BMul(i, e[2]), m)
          [] kind = "sqrt" -> Rd(Cf(g, g, i), m) = e[2]
          [] kind = "pow" -> LET k == p[3]  z == Lz(f) IN
               IF BEq(k, 0) THEN e[3] = (IF i = 0 THEN 1 ELSE 0)
               ELSE IF z = Len(f) \/ BLt(i, BMul(k, z)) THEN e[3] = 0
               ELSE LET s == BInt(BMul(k, z))  d == i - s  F == Sh(f, z)  G == Sh(g, s) IN
                    IF d = 0 THEN e[3] = BInt(BPowMod(F[1], k, m))
                    ELSE Rd(Cf(F, PDiff(G, m), d - 1), m) = Rd(BMul(k, Cf(PDiff(F, m), G, d - 1)), m))
  \/ e[1] = "none" /\ kind = "sqrt" /\ Holds(i = 0 /\ ~QR(e[2], m)) /\ UNCHANGED st
  \/ e[1] = "get" /\ Holds(LET r == IF kind = "semi" THEN PMulN(p[3], st.g, Len(st.g), m) ELSE IF kind = "mul" THEN PMulN(st.f, st.g, Len(st.f), m) ELSE st.g IN e[2] = r) /\ UNCHANGED st
PolInit(k, p) == IF k = "rel" THEN RelInit(p) ELSE <<>>
PolNext(k, p, e) == CASE k = "poly" -> PolyStep(e, p[1]) [] k = "wide" -> WideStep(e, p[1]) [] k = "rel" -> RelStep(e, p)
=============================================================================
