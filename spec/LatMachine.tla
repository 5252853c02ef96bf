----------------------------- MODULE LatMachine -----------------------------
(* Sums over lattices (subsets, supersets, divisors, multiples, mixed-radix *)
(* boxes), the convolutions they diagonalise, and set power series.         *)
(* Indices are 0-based; sequences hold index i at position i + 1.           *)
(* m = 0: integers, otherwise residues modulo m.                            *)
EXTENDS Common, Big, MState, Bitwise
Rd(x, m) == IF m = 0 THEN BInt(x) ELSE BInt(BMod(x, m))
SumAt(f, S, m) == LET q == SetToSeq(S) IN Rd(BSum([i \in 1..Len(q) |-> f[q[i] + 1]]), m)
Idx(f) == 0..(Len(f) - 1)
\* mixed-radix digits, first dimension fastest
RECURSIVE Digs(_, _)
Digs(i, dims) == IF dims = <<>> THEN <<>> ELSE <<i % dims[1]>> \o Digs(i \div dims[1], Tail(dims))
RECURSIVE UnDig(_, _)
UnDig(d, dims) == IF dims = <<>> THEN 0 ELSE d[1] + dims[1] * UnDig(Tail(d), Tail(dims))
\* i is counted at j
Below(kind, dims, i, j) ==
  CASE kind = "sub" -> (i & j) = i
    [] kind = "sup" -> (i & j) = j
    [] kind = "div" -> IF j = 0 THEN i = 0 ELSE i # 0 /\ (j % i) = 0
    [] kind = "mul" -> IF j = 0 THEN i = 0 ELSE i # 0 /\ (i % j) = 0
    [] kind = "ksub" -> LET a == Digs(i, dims)  b == Digs(j, dims) IN \A t \in DOMAIN a : a[t] <= b[t]
    [] kind = "ksup" -> LET a == Digs(i, dims)  b == Digs(j, dims) IN \A t \in DOMAIN a : a[t] >= b[t]
From(kind) == IF kind \in {"div", "mul"} THEN 1 ELSE 0        \* index 0 is not part of the divisibility order
IsZeta(kind, dims, f, g, m) == Len(g) = Len(f) /\ \A j \in Idx(f) : j >= From(kind) => g[j + 1] = SumAt(f, {i \in Idx(f) : Below(kind, dims, i, j)}, m)
IsZmax(kind, f, g) == Len(g) = Len(f) /\ \A j \in Idx(f) : j >= From(kind) => g[j + 1] = Max({f[i + 1] : i \in {x \in Idx(f) : Below(kind, <<>>, x, j)}})
RECURSIVE Pop(_)
Pop(x) == IF x = 0 THEN 0 ELSE (x % 2) + Pop(x \div 2)
IsWht(f, g, m) == Len(g) = Len(f) /\ \A k \in Idx(f) : g[k + 1] = Rd(BSum([i \in 1..Len(f) |-> IF (Pop((i - 1) & k) % 2) = 0 THEN f[i] ELSE -f[i]]), m)
IsKpow(A, x, y, m) == LET D == Len(A)  L == CHOOSE t \in 0..12 : D ^ t = Len(x)  dims == [i \in 1..L |-> D] IN
   Len(y) = Len(x) /\ \A i \in Idx(x) : y[i + 1] = Rd(BSum([j \in 1..Len(x) |-> BMul(BProd([t \in 1..L |-> A[Digs(i, dims)[t] + 1][Digs(j - 1, dims)[t] + 1]]), x[j])]), m)
RECURSIVE GcdL(_, _)
GcdL(a, b) == IF b = 0 THEN a ELSE GcdL(b, a % b)
\* the index at which a[i] b[j] is counted, -1 if nowhere
Meet(op, par, n, i, j) ==
  CASE op = "and" -> i & j
    [] op = "or" -> i | j
    [] op = "xor" -> i ^^ j
    [] op = "subset" -> IF (i & j) = 0 THEN i | j ELSE -1
    [] op = "gcd" -> IF i = 0 \/ j = 0 THEN -1 ELSE GcdL(i, j)
    [] op = "lcm" -> IF i = 0 \/ j = 0 THEN -1 ELSE LET l == (i \div GcdL(i, j)) * j IN IF l < n THEN l ELSE -1
    [] op = "mul2" -> (i * j) % n
    [] op = "dirichlet" -> IF i = 0 \/ j = 0 \/ i * j >= n THEN -1 ELSE i * j
    [] op = "dircop" -> IF i = 0 \/ j = 0 \/ i * j >= n \/ GcdL(i, j) # 1 THEN -1 ELSE i * j
    [] op = "mv" -> LET a == Digs(i, par)  b == Digs(j, par) IN IF \E t \in DOMAIN par : a[t] + b[t] >= par[t] THEN -1 ELSE UnDig([t \in DOMAIN par |-> a[t] + b[t]], par)
    [] op = "circ" -> LET a == Digs(i, par)  b == Digs(j, par) IN UnDig([t \in DOMAIN par |-> (a[t] + b[t]) % par[t]], par)
\* only the non-zero pairs matter
Pairs(op, par, n, a, b) == TLCEval({<<Meet(op, par, n, i, j), i, j>> : i \in {x \in Idx(a) : a[x + 1] # 0}, j \in {x \in Idx(b) : b[x + 1] # 0}})
IsConv(op, par, a, b, c, m) == LET n == Len(c)  Q == Pairs(op, par, n, a, b) IN
   \A k \in Idx(c) : (k = 0 /\ op \in {"gcd", "lcm"}) \/ LET q == SetToSeq({p \in Q : p[1] = k}) IN c[k + 1] = Rd(BDot([i \in 1..Len(q) |-> a[q[i][2] + 1]], [i \in 1..Len(q) |-> b[q[i][3] + 1]]), m)
ConvOf(op, par, n, a, b, m) == LET Q == Pairs(op, par, n, a, b) IN
   TLCEval([k \in 1..n |-> LET q == SetToSeq({p \in Q : p[1] = k - 1}) IN Rd(BDot([i \in 1..Len(q) |-> a[q[i][2] + 1]], [i \in 1..Len(q) |-> b[q[i][3] + 1]]), m)])
One(op, n) == [k \in 1..n |-> IF k = (IF op = "and" THEN n ELSE 1) THEN 1 ELSE 0]     \* neutral element of the convolution
RECURSIVE HornerC(_, _, _, _, _, _)     \* sum f_j a^j in the convolution ring
HornerC(f, j, acc, op, a, m) == IF j = 0 THEN acc ELSE LET n == Len(a)  p == ConvOf(op, <<>>, n, acc, a, m)  u == One(op, n) IN HornerC(f, j - 1, [k \in 1..n |-> Rd(BAdd(p[k], BMul(f[j], u[k])), m)], op, a, m)
IsMinPlus(a, b, c) == Len(c) = Len(a) + Len(b) - 1 /\ \A k \in 1..Len(c) : c[k] = Min({a[i] + b[k + 1 - i] : i \in {x \in 1..Len(a) : k + 1 - x \in 1..Len(b)}})
LatStep(e, m) ==
  /\ UNCHANGED st
  /\ \/ e[1] = "zeta" /\ Holds(IsZeta(e[2], e[3], e[4], e[5], m))
     \/ e[1] = "mob" /\ Holds(IsZeta(e[2], e[3], e[5], e[4], m))
     \/ e[1] = "zmax" /\ Holds(IsZmax(e[2], e[3], e[4]))
     \/ e[1] = "wht" /\ Holds(IsWht(e[2], e[3], m))
     \/ e[1] = "whti" /\ Holds(IsWht(e[3], e[2], m))
     \/ e[1] = "kp" /\ Holds(IsKpow(e[2], e[3], e[4], m))
     \/ e[1] = "conv" /\ Holds(IsConv(e[2], e[3], e[4], e[5], e[6], m) /\ Len(e[6]) = e[7])
     \/ e[1] = "conv3" /\ Holds(IsConv(e[2], <<>>, ConvOf(e[2], <<>>, Len(e[3]), e[3], e[4], m), e[5], e[6], m))
     \/ e[1] = "peval" /\ Holds(e[5] = HornerC(e[3], Len(e[3]), [k \in 1..Len(e[4]) |-> 0], e[2], e[4], m))
     \/ e[1] = "minplus" /\ Holds(IsMinPlus(e[2], e[3], e[4]))
     \/ e[1] = "mm" /\ Holds(Len(e[3]) = Len(e[2]) /\ \A i \in DOMAIN e[2] : e[3][i] \in 0..(Len(e[2][i]) - 1) /\ e[2][i][e[3][i] + 1] = Min(SeqToSet(e[2][i])))
\* ------------------------------------------------------------ set power series: st = register file of sequences of length 2^d
SC(f, g, m) == TLCEval([s \in 1..Len(f) |-> LET q == SetToSeq({t \in 0..(s - 1) : (t & (s - 1)) = t}) IN Rd(BDot([i \in 1..Len(q) |-> f[q[i] + 1]], [i \in 1..Len(q) |-> g[(s - 1) - q[i] + 1]]), m)])
SOne(n) == [k \in 1..n |-> IF k = 1 THEN 1 ELSE 0]
RECURSIVE SPow(_, _, _)
SPow(f, k, m) == IF k = 0 THEN SOne(Len(f)) ELSE IF (k % 2) = 1 THEN SC(f, SPow(f, k - 1, m), m) ELSE LET h == SPow(f, k \div 2, m) IN SC(h, h, m)
RECURSIVE SPowBits(_, _, _)     \* the exponent given by its binary digits, most significant first
SPowBits(f, b, m) == IF b = <<>> THEN SOne(Len(f)) ELSE LET h == SPowBits(f, SubSeq(b, 1, Len(b) - 1), m)  q == SC(h, h, m) IN IF b[Len(b)] = 1 THEN SC(f, q, m) ELSE q
LowBit(s) == CHOOSE b \in {2 ^ i : i \in 0..20} : (s & b) = b /\ \A c \in {2 ^ i : i \in 0..20} : c < b => (s & c) = 0
\* E(S) = sum over the part T of S that holds its lowest element of f(T) E(S \ T)
RECURSIVE SExpFrom(_, _, _)
SExpFrom(f, E, m) == IF Len(E) = Len(f) THEN E ELSE LET s == Len(E)  lb == LowBit(s)  q == SetToSeq({t \in 0..s : (t & s) = t /\ (t & lb) = lb}) IN
   SExpFrom(f, TLCEval(Append(E, Rd(BDot([i \in 1..Len(q) |-> f[q[i] + 1]], [i \in 1..Len(q) |-> E[s - q[i] + 1]]), m))), m)
SExp(f, m) == SExpFrom(f, <<1>>, m)
RECURSIVE SHorner(_, _, _, _, _)
SHorner(f, j, acc, g, m) == IF j = 0 THEN acc ELSE LET p == SC(acc, g, m) IN SHorner(f, j - 1, [p EXCEPT ![1] = Rd(BAdd(@, f[j]), m)], g, m)
SSet(i, v, r) == r = v /\ st' = [st EXCEPT ![i] = v]
SpsStep(e, m) ==
  \/ e[1] = "set" /\ st' = [st EXCEPT ![e[2]] = e[3]]
  \/ e[1] = "add" /\ SSet(e[2], [k \in DOMAIN st[e[2]] |-> Rd(BAdd(st[e[2]][k], st[e[3]][k]), m)], e[4])
  \/ e[1] = "sub" /\ SSet(e[2], [k \in DOMAIN st[e[2]] |-> Rd(BSub(st[e[2]][k], st[e[3]][k]), m)], e[4])
  \/ e[1] = "neg" /\ SSet(e[2], [k \in DOMAIN st[e[2]] |-> Rd(BNeg(st[e[2]][k]), m)], e[3])
  \/ e[1] = "mulc" /\ SSet(e[2], [k \in DOMAIN st[e[2]] |-> Rd(BMul(st[e[2]][k], e[3]), m)], e[4])
  \/ e[1] = "divc" /\ SSet(e[2], e[4], e[4]) /\ Holds(\A k \in DOMAIN e[4] : Rd(BMul(e[4][k], e[3]), m) = st[e[2]][k])
  \/ e[1] = "mul" /\ SSet(e[2], SC(st[e[2]], st[e[3]], m), e[4])
  \/ e[1] = "pow" /\ SSet(e[2], SPow(st[e[2]], e[3], m), e[4])
  \/ e[1] = "powb" /\ SSet(e[2], SPowBits(st[e[2]], e[3], m), e[4])
  \/ e[1] = "inv" /\ SSet(e[2], e[3], e[3]) /\ Holds(SC(st[e[2]], e[3], m) = SOne(Len(e[3])))
  \/ e[1] = "exp" /\ SSet(e[2], SExp(st[e[2]], m), e[3])
  \/ e[1] = "log" /\ SSet(e[2], e[3], e[3]) /\ Holds(e[3][1] = 0 /\ SExp(e[3], m) = st[e[2]])
  \/ e[1] = "sqrt" /\ SSet(e[2], e[3], e[3]) /\ Holds(SC(e[3], e[3], m) = st[e[2]])
  \/ e[1] = "comp" /\ SSet(e[2], SHorner(e[3], Len(e[3]), [k \in DOMAIN st[e[2]] |-> 0], st[e[2]], m), e[4])
  \/ e[1] = "join" /\ UNCHANGED st /\ Holds(e[4] = st[e[2]] \o st[e[3]] /\ e[5] = Len(e[4]))      \* concat: a new top element
  \/ e[1] = "cut" /\ UNCHANGED st /\ Holds(e[4] = SubSeq(st[e[2]], 1, e[3]) /\ e[5] = SubSeq(st[e[2]], e[3] + 1, 2 * e[3]))
  \/ e[1] = "lin" /\ UNCHANGED st /\ Holds(e[6] = [k \in DOMAIN st[e[2]] |-> Rd(BSub(BMul(e[5], SC(st[e[2]], st[e[3]], m)[k]), st[e[4]][k]), m)])   \* c f g - h, computed in the transformed domain
LatInit(k, p) == IF k = "sps" THEN [i \in 1..3 |-> [s \in 1..(2 ^ p[2]) |-> 0]] ELSE 0
LatNext(k, p, e) == IF k = "sps" THEN SpsStep(e, p[1]) ELSE LatStep(e, p[1])
=============================================================================
