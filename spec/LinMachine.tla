----------------------------- MODULE LinMachine -----------------------------
(* Matrices and linear systems.  A matrix is a sequence of rows.  m = 0:    *)
(* integers, otherwise residues modulo m.                                   *)
EXTENDS Common, Big, MState, Bitwise
Rd(x, m) == IF m = 0 THEN BInt(x) ELSE BInt(BMod(x, m))
Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Shape(A, n, k) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = k
Tr(A) == [j \in 1..Cols(A) |-> [i \in 1..Len(A) |-> A[i][j]]]
Id(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MatAdd(A, B, m) == [i \in 1..Len(A) |-> [j \in 1..Cols(A) |-> Rd(BAdd(A[i][j], B[i][j]), m)]]
MatSub(A, B, m) == [i \in 1..Len(A) |-> [j \in 1..Cols(A) |-> Rd(BSub(A[i][j], B[i][j]), m)]]
MatNeg(A, m) == [i \in 1..Len(A) |-> [j \in 1..Cols(A) |-> Rd(BNeg(A[i][j]), m)]]
MatScale(A, v, m) == [i \in 1..Len(A) |-> [j \in 1..Cols(A) |-> Rd(BMul(A[i][j], v), m)]]
MatMul(A, B, m) == LET T == TLCEval(Tr(B)) IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(T) |-> Rd(BDot(A[i], T[j]), m)]])
MatVec(A, x, m) == [i \in 1..Len(A) |-> Rd(BDot(A[i], x), m)]
RECURSIVE MatPow(_, _, _)
MatPow(A, e, m) == IF e = 0 THEN [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN Rd(1, m) ELSE 0]] ELSE LET h == MatPow(A, e \div 2, m)  q == MatMul(h, h, m) IN IF (e % 2) = 1 THEN MatMul(q, A, m) ELSE q
(* the exponent given by its binary digits, most significant first: an exponent of 64 bits is an exponent *)
RECURSIVE MatPowBits(_, _, _)
MatPowBits(A, b, m) == IF b = <<>> THEN MatPow(A, 0, m) ELSE LET h == MatPowBits(A, SubSeq(b, 1, Len(b) - 1), m)  q == MatMul(h, h, m) IN IF b[Len(b)] = 1 THEN MatMul(q, A, m) ELSE q
\* determinant by expansion along the first row (any ring)
Minor(A, c) == [i \in 1..(Len(A) - 1) |-> [j \in 1..(Len(A) - 1) |-> A[i + 1][IF j < c THEN j ELSE j + 1]]]
RECURSIVE DetL(_, _)
DetL(A, m) == IF A = <<>> THEN Rd(1, m) ELSE Rd(BSum([c \in 1..Len(A) |-> IF A[1][c] = 0 THEN 0 ELSE BMul(IF (c % 2) = 1 THEN A[1][c] ELSE -A[1][c], DetL(TLCEval(Minor(A, c)), m))]), m)
\* echelon form modulo a prime: <<pivot columns, rows, determinant factor>>
RECURSIVE Ech(_, _, _, _, _, _)
Ech(A, r, c, piv, d, m) ==
  IF r > Len(A) \/ c > Cols(A) THEN [piv |-> piv, rows |-> A, d |-> d]
  ELSE LET R == {i \in r..Len(A) : A[i][c] # 0} IN
     IF R = {} THEN Ech(A, r, c + 1, piv, 0, m)
     ELSE LET p == Min(R)
              B == [A EXCEPT ![r] = A[p], ![p] = A[r]]
              v == BModInv(B[r][c], m)
              C == TLCEval([i \in 1..Len(A) |-> IF i <= r \/ B[i][c] = 0 THEN B[i] ELSE LET q == BMul(B[i][c], v) IN [j \in 1..Cols(A) |-> Rd(BSub(B[i][j], BMul(q, B[r][j])), m)]])
          IN Ech(C, r + 1, c + 1, Append(piv, c), Rd(BMul(IF p = r THEN d ELSE -d, B[r][c]), m), m)
Rank(A, m) == Len(Ech(A, 1, 1, <<>>, 1, m).piv)
DetE(A, m) == IF A = <<>> THEN Rd(1, m) ELSE LET e == Ech(A, 1, 1, <<>>, 1, m) IN IF Len(e.piv) < Len(A) THEN 0 ELSE e.d
Det(A, m) == IF m # 0 /\ Len(A) > 4 THEN DetE(A, m) ELSE DetL(A, m)
\* r: <<>> = singular
IsInv(A, r, m) == IF DetE(A, m) = 0 THEN r = <<>> ELSE Len(r) = 1 /\ Shape(r[1], Len(A), Len(A)) /\ MatMul(A, r[1], m) = Id(Len(A))
\* <<solutions exist, x0, basis of the kernel>>
Aug(A, b) == [i \in 1..Len(A) |-> Append(A[i], b[i])]
IsSolution(A, b, k, ok, x, bas, m) == LET ra == Rank(A, m) IN
  IF Rank(Aug(A, b), m) > ra THEN ~ok
  ELSE /\ ok /\ Len(x) = k /\ MatVec(A, x, m) = b
       /\ Len(bas) = k - ra /\ \A t \in 1..Len(bas) : Len(bas[t]) = k /\ \A i \in 1..Len(A) : Rd(BDot(A[i], bas[t]), m) = 0
       /\ Rank(bas, m) = Len(bas)
IsCharPoly(A, p, m) == LET n == Len(A) IN Len(p) = n + 1 /\ p[n + 1] = 1 /\
  \A x \in 0..(n - 1) : Rd(BDot(p, [i \in 1..(n + 1) |-> BPow(x, i - 1)]), m) = DetE([i \in 1..n |-> [j \in 1..n |-> Rd(BSub(IF i = j THEN x ELSE 0, A[i][j]), m)]], m)
RECURSIVE Haf(_, _, _)
Haf(A, S, m) == IF S = {} THEN Rd(1, m) ELSE LET i == Min(S) IN Rd(BSum([j \in 1..Len(A) |-> IF j \in S /\ j # i THEN BMul(A[i][j], Haf(A, S \ {i, j}, m)) ELSE 0]), m)
\* spanning trees by definition: (n-1)-subsets of the edge indices that connect everything
RECURSIVE Reach(_, _)
Reach(S, E) == LET T == S \cup {e[2] : e \in {x \in E : x[1] \in S}} \cup {e[1] : e \in {x \in E : x[2] \in S}} IN IF T = S THEN S ELSE Reach(T, E)
Spanning(n, es) == Cardinality({K \in {J \in SUBSET (1..Len(es)) : Cardinality(J) = n - 1} : Reach({0}, {es[k] : k \in K}) = 0..(n - 1)})
Circ(a) == LET n == Len(a) IN [i \in 1..n |-> [j \in 1..n |-> a[((i - j + n) % n) + 1]]]
IsCircPow(a, e, r, m) == Circ(r) = MatPow(Circ(a), e, m)
\* real systems, unknowns recorded in units of 10^-6
IsReal(A, b, k, ok, x, bas) == LET P == 2147483629  A2 == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> Rd(A[i][j], P)]]  b2 == [i \in 1..Len(b) |-> Rd(b[i], P)]  ra == Rank(A2, P) IN
  IF Rank(Aug(A2, b2), P) > ra THEN ~ok
  ELSE /\ ok /\ Len(x) = k /\ Len(bas) = k - ra
       /\ \A i \in 1..Len(A) : BLe(BAbs(BSub(BDot(A[i], x), BMul(b[i], 1000000))), 1000)
       /\ \A t \in 1..Len(bas), i \in 1..Len(A) : BLe(BAbs(BDot(A[i], bas[t])), 1000)
LinStep(e, m) ==
  /\ UNCHANGED st
  /\ \/ e[1] = "add" /\ Holds(e[4] = MatAdd(e[2], e[3], m))
     \/ e[1] = "sub" /\ Holds(e[4] = MatSub(e[2], e[3], m))
     \/ e[1] = "neg" /\ Holds(e[3] = MatNeg(e[2], m))
     \/ e[1] = "scale" /\ Holds(e[4] = MatScale(e[2], e[3], m))
     \/ e[1] = "mul" /\ Holds(e[4] = MatMul(e[2], e[3], m))
     \/ e[1] = "vec" /\ Holds(e[4] = MatVec(e[2], e[3], m))
     \/ e[1] = "pow" /\ Holds(e[4] = MatPow(e[2], e[3], m))
     \/ e[1] = "tr" /\ Holds(e[3] = Tr(e[2]))
     \/ e[1] = "id" /\ Holds(e[3] = Id(e[2]))
     \/ e[1] = "const" /\ Holds(Shape(e[5], e[2], e[3]) /\ \A i \in 1..e[2], j \in 1..e[3] : e[5][i][j] = e[4])
     \/ e[1] = "shape" /\ Holds(e[3] = Len(e[2]) /\ e[4] = Cols(e[2]))
     \/ e[1] = "eq" /\ Holds((e[4] <=> e[2] = e[3]) /\ (e[5] <=> e[2] # e[3]))
     \/ e[1] = "inv" /\ Holds(IsInv(e[2], e[3], m))
     \/ e[1] = "div" /\ Holds(MatMul(e[4], e[3], m) = e[2])             \* A / B, B regular
     \/ e[1] = "sdiv" /\ Holds(MatScale(e[4], e[3], m) = e[2])
     \/ e[1] = "det" /\ Holds(e[3] = Det(e[2], m))
     \/ e[1] = "rank" /\ Holds(e[3] = Rank(e[2], m))
     \/ e[1] = "sol" /\ Holds(IsSolution(e[2], e[3], e[4], e[5], e[6], e[7], m) /\ e[8] = (IF e[5] THEN Len(e[7]) ELSE -1) /\ (e[9] <=> e[5] /\ e[7] = <<>>) /\ (e[10] <=> e[5] /\ e[7] # <<>>))
     \/ e[1] = "real" /\ Holds(IsReal(e[2], e[3], e[4], e[5], e[6], e[7]))
     \/ e[1] = "charpoly" /\ Holds(IsCharPoly(e[2], e[3], m))
     \/ e[1] = "hess" /\ Holds(LET n == Len(e[2]) IN Shape(e[3], n, n) /\ (\A i, j \in 1..n : i > j + 1 => e[3][i][j] = 0) /\ \A x \in 0..n : LET X(A) == DetE([i \in 1..n |-> [j \in 1..n |-> Rd(BSub(IF i = j THEN x ELSE 0, A[i][j]), m)]], m) IN X(e[2]) = X(e[3]))
     \/ e[1] = "haf" /\ Holds(e[3] = Haf(e[2], 1..Len(e[2]), m))
     \/ e[1] = "trees" /\ Holds(e[4] = Rd(Spanning(e[2], e[3]), m))
     \/ e[1] = "circ" /\ Holds(e[3] = Circ(e[2]))
     \/ e[1] = "circmul" /\ Holds(Circ(e[4]) = MatMul(Circ(e[2]), Circ(e[3]), m))
     \/ e[1] = "powb" /\ Holds(e[4] = MatPowBits(e[2], e[3], m))
     \/ e[1] = "circpowb" /\ Holds(Circ(e[4]) = MatPowBits(Circ(e[2]), e[3], m))
     \/ e[1] = "circpow" /\ Holds(IsCircPow(e[2], e[3], e[4], m))
     \/ e[1] = "circvec" /\ Holds(e[4] = MatVec(Circ(e[2]), e[3], m))
(* Linear spans over GF(2) of 0/1 sequences or (decimal) numbers: two       *)
(* registers per session, st = <<span, span>>.                              *)
VXor(a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % 2]
SpanAdd(S, v, Xo(_, _)) == IF v \in S THEN S ELSE S \cup {Xo(x, v) : x \in S}
IsBasis(S, b, zero, Xo(_, _)) == LET R == FoldLeft(LAMBDA T, v : IF v \in T THEN {} ELSE SpanAdd(T, v, Xo), {zero}, b) IN R = S
SpanStep(e, zero, Xo(_, _)) ==
     \/ e[1] = "add" /\ Holds(e[4] <=> e[3] \notin st[e[2]]) /\ st' = [st EXCEPT ![e[2]] = SpanAdd(@, e[3], Xo)]
     \/ e[1] = "reset" /\ st' = [st EXCEPT ![e[2]] = FoldLeft(LAMBDA T, v : SpanAdd(T, v, Xo), {zero}, e[3])]
     \/ e[1] = "basis" /\ Holds(IsBasis(st[e[2]], e[3], zero, Xo) /\ e[4] = Len(e[3])) /\ UNCHANGED st
     \/ e[1] = "sum" /\ st' = [st EXCEPT ![e[2]] = {Xo(x, y) : x \in st[e[3]], y \in st[e[4]]}]
     \/ e[1] = "cap" /\ st' = [st EXCEPT ![e[2]] = st[e[3]] \cap st[e[4]]]
LinInit(k, p) == IF k = "lin" THEN <<>> ELSE IF k = "span" THEN <<{"0"}, {"0"}, {"0"}>> ELSE LET z == Const(p[1], 0) IN <<{z}, {z}, {z}>>
LinNext(k, p, e) == IF k = "lin" THEN LinStep(e, p[1]) ELSE IF k = "span" THEN SpanStep(e, "0", BXor) ELSE SpanStep(e, Const(p[1], 0), VXor)
=============================================================================
