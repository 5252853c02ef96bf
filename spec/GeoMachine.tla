----------------------------- MODULE GeoMachine -----------------------------
(* Plane and space geometry.  Inputs are integer points; results that are   *)
(* not integers are recorded in units of 10^-6 (U) and must satisfy the     *)
(* defining equations of the object within a few units.                     *)
EXTENDS Common, Big, MState
U == 1000000
UU == BMul(U, U)
GeoInit(k, p) == [x |-> 0]
Vec(a, b) == <<BSub(b[1], a[1]), BSub(b[2], a[2])>>
Dot2(u, v) == BAdd(BMul(u[1], v[1]), BMul(u[2], v[2]))
Det2(u, v) == BSub(BMul(u[1], v[2]), BMul(u[2], v[1]))
D2(a, b) == LET v == Vec(a, b) IN Dot2(v, v)
Sg(x) == IF BLt(x, 0) THEN -1 ELSE IF BLt(0, x) THEN 1 ELSE 0
Ori(a, b, c) == Sg(Det2(Vec(a, b), Vec(a, c)))
Near(x, y, tol) == BLe(BAbs(BSub(x, y)), tol)
\* out (in units) is num / den
NearQ(out, num, den, tol) == Near(BMul(out, den), BMul(num, U), BMul(tol, den))
\* out (in units) is the square root of num / den
NearRoot(out, num, den, tol) == BLe(0, out) /\ Near(out, BSqrt(BDiv(BMul(num, UU), den)), tol)
Isp(a, b, c) == LET o == Ori(a, b, c) IN IF o # 0 THEN o ELSE IF Sg(Dot2(Vec(a, b), Vec(a, c))) < 0 THEN -2 ELSE IF BLt(D2(a, b), D2(a, c)) THEN 2 ELSE 0
OnLine(a, b, p) == Ori(a, b, p) = 0
OnRay(a, b, p) == OnLine(a, b, p) /\ Sg(Dot2(Vec(a, b), Vec(a, p))) >= 0
OnSeg(a, b, p) == OnLine(a, b, p) /\ Sg(Dot2(Vec(p, a), Vec(p, b))) <= 0
Par(a, b, c, d) == Sg(Det2(Vec(a, b), Vec(c, d))) = 0
\* two segments share a point
Meet(a, b, c, d) == OnSeg(a, b, c) \/ OnSeg(a, b, d) \/ OnSeg(c, d, a) \/ OnSeg(c, d, b) \/ (Ori(a, b, c) * Ori(a, b, d) < 0 /\ Ori(c, d, a) * Ori(c, d, b) < 0)
SameSet(k, a, b, c, d) == CASE k = "line" -> OnLine(a, b, c) /\ OnLine(a, b, d)
                            [] k = "ray" -> a = c /\ OnRay(a, b, d)
                            [] k = "seg" -> {a, b} = {c, d}
OnKind(k, a, b, p) == CASE k = "line" -> OnLine(a, b, p) [] k = "ray" -> OnRay(a, b, p) [] k = "seg" -> OnSeg(a, b, p)
\* squared distance of a point from a line, ray or segment as <<numerator, denominator>>
DistSq(k, a, b, p) == IF k # "line" /\ Sg(Dot2(Vec(a, b), Vec(a, p))) <= 0 THEN <<D2(a, p), "1">>
                      ELSE IF k = "seg" /\ Sg(Dot2(Vec(b, a), Vec(b, p))) <= 0 THEN <<D2(b, p), "1">>
                      ELSE LET z == Det2(Vec(a, b), Vec(a, p)) IN <<BMul(z, z), D2(a, b)>>
QLe(q, t) == BLe(BMul(q[1], t[2]), BMul(t[1], q[2]))
QMin(S) == CHOOSE q \in S : \A t \in S : QLe(q, t)
SegSegSq(a, b, c, d) == IF Meet(a, b, c, d) THEN <<0, 1>> ELSE QMin({DistSq("seg", a, b, c), DistSq("seg", a, b, d), DistSq("seg", c, d, a), DistSq("seg", c, d, b)})
\* ------------------------------------------------------------- polygons
Nx(P, i) == P[(i % Len(P)) + 1]
Area2(P) == BSum([i \in 1..Len(P) |-> Det2(P[i], Nx(P, i))])
OnEdge(P, p) == \E i \in 1..Len(P) : OnSeg(P[i], Nx(P, i), p)
\* a ray in a direction that passes no lattice point of the box: count the edges it crosses
Far == <<100003, 1>>
Crosses(a, b, p) == LET s == Sg(Det2(Far, Vec(p, a)))  t == Sg(Det2(Far, Vec(p, b))) IN s # t /\ Sg(Det2(Vec(p, a), Vec(a, b))) = Sg(Det2(Far, Vec(a, b)))
Odd(P, p) == (Cardinality({i \in 1..Len(P) : Crosses(P[i], Nx(P, i), p)}) % 2) = 1
Where(P, p) == IF OnEdge(P, p) THEN 1 ELSE IF Odd(P, p) THEN 2 ELSE 0        \* 0 out, 1 on, 2 in
Lattice(P) == LET X == {P[i][1] : i \in DOMAIN P}  Y == {P[i][2] : i \in DOMAIN P} IN Cardinality({q \in (Min(X)..Max(X)) \X (Min(Y)..Max(Y)) : Where(P, q) > 0})
IsConvex(P, flat) == \A i \in 1..Len(P) : LET o == Ori(P[i], Nx(P, i), Nx(P, (i % Len(P)) + 1)) IN o > 0 \/ (flat /\ o = 0)
WhereHull(H, p) == IF \E i \in 1..Len(H) : (IF Len(H) = 1 THEN p = H[1] ELSE OnSeg(H[i], Nx(H, i), p)) THEN 1
                   ELSE IF Len(H) > 2 /\ \A i \in 1..Len(H) : Ori(H[i], Nx(H, i), p) >= 0 THEN (IF Sg(Area2(H)) > 0 THEN 2 ELSE 0) ELSE 0
\* ------------------------------------------------------------- point sets
XYLt(p, q) == BLt(p[1], q[1]) \/ (BEq(p[1], q[1]) /\ BLt(p[2], q[2]))
Boundary(S) == IF Cardinality(S) = 1 THEN S ELSE {p \in S : \E q \in S \ {p} : \A s \in S : Ori(p, q, s) >= 0}
Collinear(S) == \A p \in S, q \in S, r \in S : Ori(p, q, r) = 0
IsHull(P, ids) == LET S == SeqToSet(P)  H == [i \in 1..Len(ids) |-> P[ids[i] + 1]]  B == TLCEval(Boundary(S)) IN
  IF P = <<>> THEN ids = <<>> ELSE
  /\ Len(ids) = Cardinality(B) /\ \A i \in DOMAIN ids : ids[i] \in 0..(Len(P) - 1)
  /\ SeqToSet(H) = B
  /\ \A p \in S : ~XYLt(p, H[1])
  /\ IF Collinear(S) THEN \A i \in 2..Len(H) : XYLt(H[i - 1], H[i]) ELSE \A i \in 1..Len(H) : \A p \in S : Ori(H[i], Nx(H, i), p) >= 0
PairIdx(P) == {q \in (1..Len(P)) \X (1..Len(P)) : q[1] < q[2]}
IsPair(P, a, b, far) == IF Len(P) = 1 THEN a = P[1] /\ b = P[1] ELSE
  LET d == D2(a, b) IN /\ \E q \in (1..Len(P)) \X (1..Len(P)) : q[1] # q[2] /\ P[q[1]] = a /\ P[q[2]] = b
                       /\ \A q \in PairIdx(P) : IF far THEN BLe(D2(P[q[1]], P[q[2]]), d) ELSE BLe(d, D2(P[q[1]], P[q[2]]))
Sector(p) == IF BLt(p[2], 0) THEN 0 ELSE IF BLt(0, p[2]) THEN 2 ELSE IF BLt(p[1], 0) THEN 3 ELSE 1
ArgLe(p, q) == Sector(p) < Sector(q) \/ (Sector(p) = Sector(q) /\ Sg(Det2(p, q)) >= 0)
BagOf(s) == [v \in SeqToSet(s) |-> Count(s, LAMBDA w : w = v)]
IsArgSort(P, r) == BagOf(P) = BagOf(r) /\ \A i \in 2..Len(r) : ArgLe(r[i - 1], r[i])
Between(a, b, x) == (BLe(a, x) /\ BLe(x, b)) \/ (BLe(b, x) /\ BLe(x, a))
GridMeets(V, H) == Cardinality({q \in (1..Len(V)) \X (1..Len(H)) : Between(V[q[1]][2][1], V[q[1]][2][2], H[q[2]][2]) /\ Between(H[q[2]][1][1], H[q[2]][1][2], V[q[1]][1])})
\* ------------------------------------------------------------- circles <<centre, radius>> with integers
TangentNum(c, r, d, s) == LET q == D2(c, d)  p == BMul(BAdd(r, s), BAdd(r, s))  m == BMul(BSub(r, s), BSub(r, s)) IN
  IF BLt(p, q) THEN 4 ELSE IF BEq(p, q) THEN 3 ELSE IF BLt(m, q) THEN 2 ELSE IF BEq(m, q) THEN 1 ELSE 0
InCircle(c, r, p) == 1 - Sg(BSub(D2(c, p), BMul(r, r)))
\* points in units
Up(p) == <<BMul(p[1], U), BMul(p[2], U)>>
DU(p, q) == BSqrt(D2(p, q))                       \* distance in units of two points in units
Apart(p, q) == BLt(20, DU(p, q))
OnLineU(a, b, p) == BLe(BAbs(Det2(Vec(a, b), Vec(Up(a), p))), BMul(5, BAdd(1, BSqrt(D2(a, b)))))
OnCircleU(c, r, p) == Near(DU(Up(c), p), BMul(r, U), 5)
Two(ps) == Len(ps) = 2 => Apart(ps[1], ps[2])
IsCL(c, r, a, b, ps) == LET z == Det2(Vec(a, b), Vec(a, c))  s == Sg(BSub(BMul(BMul(r, r), D2(a, b)), BMul(z, z))) IN
  Len(ps) = s + 1 /\ Two(ps) /\ \A i \in DOMAIN ps : OnLineU(a, b, ps[i]) /\ OnCircleU(c, r, ps[i])
\* how many points a circle and a segment share
CSNum(c, r, a, b) == LET z == Det2(Vec(a, b), Vec(a, c))  ds == Sg(BSub(BMul(BMul(r, r), D2(a, b)), BMul(z, z)))
                         fa == Sg(BSub(D2(a, c), BMul(r, r)))  fb == Sg(BSub(D2(b, c), BMul(r, r)))
                         v == Dot2(Vec(a, b), Vec(a, c))  t0 == Sg(v)  t1 == Sg(BSub(v, D2(a, b)))        \* vertex against 0 and 1
                     IN IF ds < 0 THEN 0 ELSE IF ds = 0 THEN (IF t0 >= 0 /\ t1 <= 0 THEN 1 ELSE 0)
                        ELSE (IF fa >= 0 /\ t0 > 0 /\ (fb <= 0 \/ t1 < 0) THEN 1 ELSE 0) + (IF fb >= 0 /\ t1 < 0 /\ (fa <= 0 \/ t0 > 0) THEN 1 ELSE 0)
IsCS(c, r, a, b, ps) == Len(ps) = CSNum(c, r, a, b) /\ Two(ps) /\ \A i \in DOMAIN ps : OnLineU(a, b, ps[i]) /\ OnCircleU(c, r, ps[i])
                         /\ BLe(Dot2(Vec(ps[i], Up(a)), Vec(ps[i], Up(b))), BMul(1000, U))
IsCC(c, r, d, s, ps) == Len(ps) = (CASE TangentNum(c, r, d, s) \in {0, 4} -> 0 [] TangentNum(c, r, d, s) \in {1, 3} -> 1 [] OTHER -> 2) /\ Two(ps) /\ \A i \in DOMAIN ps : OnCircleU(c, r, ps[i]) /\ OnCircleU(d, s, ps[i])
PerpU(u, v, tol) == BLe(BAbs(Dot2(u, v)), BMul(tol, BAdd(BSqrt(Dot2(u, u)), BSqrt(Dot2(v, v)))))
IsTan(c, r, p, ps) == Len(ps) = 2 - InCircle(c, r, p) /\ Two(ps) /\ \A i \in DOMAIN ps : OnCircleU(c, r, ps[i]) /\ PerpU(Vec(Up(c), ps[i]), Vec(Up(p), ps[i]), 10)
\* tangents <<point on the first circle, point on the second>>
IsCT(c, r, d, s, ls) ==
  /\ Len(ls) = TangentNum(c, r, d, s)
  /\ \A i \in DOMAIN ls : OnCircleU(c, r, ls[i][1]) /\ OnCircleU(d, s, ls[i][2]) /\ PerpU(Vec(Up(c), ls[i][1]), Vec(ls[i][1], ls[i][2]), 10) /\ PerpU(Vec(Up(d), ls[i][2]), Vec(ls[i][1], ls[i][2]), 10)
  /\ \A i, j \in DOMAIN ls : i < j => Apart(ls[i][1], ls[j][1]) \/ Apart(ls[i][2], ls[j][2])
\* areas by vertical slices: the slice of a circle / of a convex polygon at abscissa X (units), as an interval in units
CircSlice(c, r, X) == LET dx == BSub(X, BMul(c[1], U))  q == BSub(BMul(BMul(r, r), UU), BMul(dx, dx)) IN
  IF BLt(q, 0) THEN <<0, 0>> ELSE LET h == BSqrt(q) IN <<BSub(BMul(c[2], U), h), BAdd(BMul(c[2], U), h)>>
PolySlice(P, X) == LET E == {i \in 1..Len(P) : LET a == BMul(P[i][1], U)  b == BMul(Nx(P, i)[1], U) IN ~BEq(a, b) /\ Between(a, b, X)}
                       yat(i) == LET a == P[i]  b == Nx(P, i) IN BAdd(BMul(a[2], U), BDiv(BMul(BSub(b[2], a[2]), BSub(X, BMul(a[1], U))), BSub(b[1], a[1])))
                       Y == {yat(i) : i \in E} IN
  IF E = {} THEN <<0, 0>> ELSE <<CHOOSE y \in Y : \A z \in Y : BLe(y, z), CHOOSE y \in Y : \A z \in Y : BLe(z, y)>>
Overlap(I, J) == LET l == BMax(I[1], J[1])  h == BMin(I[2], J[2]) IN IF BLt(l, h) THEN BSub(h, l) ELSE 0
Slices == 240
\* |out - integral| <= tolerance of 1/20 of a square unit at the sizes used
SliceArea(lo, hi, Len2(_)) == LET w == BDiv(BMul(hi - lo, U), Slices) IN BDiv(BMul(w, BSum([k \in 1..Slices |-> Len2(BAdd(BMul(lo, U), BAdd(BMul(w, k - 1), BDiv(w, 2))))])), U)
IsAreaCC(c, r, d, s, out) == Near(out, SliceArea(c[1] - r, c[1] + r, LAMBDA X : Overlap(CircSlice(c, r, X), CircSlice(d, s, X))), 50000 + 4000 * r)
IsAreaPC(P, c, r, out) == Near(out, SliceArea(c[1] - r, c[1] + r, LAMBDA X : Overlap(CircSlice(c, r, X), PolySlice(P, X))), 50000 + 8000 * r)
\* ------------------------------------------------------------- triangles (results in units)
\* signed distance (scaled by the side) of a point in units from the line a b
SideU(a, b, p) == BDiv(BMul(Det2(Vec(a, b), Vec(Up(a), p)), UU), BSqrt(BMul(BMul(D2(a, b), UU), UU)))
\* centre o, radius r touch the three side lines; sa, sb, sc: on which side of bc, ca, ab
Touches(a, b, c, o, r, sa, sb, sc) == LET k == Ori(a, b, c) IN Near(BMul(k * sa, SideU(b, c, o)), r, 8) /\ Near(BMul(k * sb, SideU(c, a, o)), r, 8) /\ Near(BMul(k * sc, SideU(a, b, o)), r, 8)
GeoOk(e) ==
  CASE e[1] = "isp" -> e[5] = Isp(e[2], e[3], e[4])
    [] e[1] = "pair2" -> LET a == e[2]  b == e[3]  c == e[4]  d == e[5] IN      \* relations of two lines
         e[6] = << Par(a, b, c, d), Sg(Dot2(Vec(a, b), Vec(c, d))) = 0, Par(a, b, c, d) /\ OnLine(a, b, c), Meet(a, b, c, d) >>
    [] e[1] = "same" -> e[7] = SameSet(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "on" -> e[6] = OnKind(e[2], e[3], e[4], e[5])
    [] e[1] = "area2" -> BEq(e[3], Area2(e[2])) /\ BEq(e[4], BAbs(Area2(e[2])))
    [] e[1] = "areaU" -> NearQ(e[3], Area2(e[2]), 2, 3) /\ NearQ(e[4], BAbs(Area2(e[2])), 2, 3)
    [] e[1] = "convex" -> e[3] = IsConvex(e[2], TRUE) /\ e[4] = IsConvex(e[2], FALSE)
    [] e[1] = "where" -> e[4] = Where(e[2], e[3])
    [] e[1] = "wherehull" -> e[4] = WhereHull(e[2], e[3])
    [] e[1] = "lattice" -> e[3] = Lattice(e[2])
    [] e[1] = "hull" -> IsHull(e[2], e[3])
    [] e[1] = "closest" -> IsPair(e[2], e[3], e[4], FALSE)
    [] e[1] = "farthest" -> IsPair(e[2], e[3], e[4], TRUE)
    [] e[1] = "diam" -> LET P == e[2] IN IsPair(P, P[e[3] + 1], P[e[4] + 1], TRUE) /\ NearRoot(e[5], D2(P[e[3] + 1], P[e[4] + 1]), 1, 3)
    [] e[1] = "argsort" -> IsArgSort(e[2], e[3])
    [] e[1] = "gridfull" -> BEq(e[4], BMul(e[2], e[3]))
    [] e[1] = "gridmeets" -> e[4] = GridMeets(e[2], e[3])
    [] e[1] = "tnum" -> e[6] = TangentNum(e[2], e[3], e[4], e[5])
    [] e[1] = "tnumc" -> LET t == TangentNum(e[2], e[3], e[4], e[5]) IN e[6] = t /\ e[7] = (t \in 1..3) /\ e[8] = (t = 2)
    [] e[1] = "incircle" -> e[5] = InCircle(e[2], e[3], e[4])
    [] e[1] = "pops" -> LET a == e[2]  b == e[3]  k == e[4] IN e[5] = << <<a[1] + b[1], a[2] + b[2]>>, <<a[1] - b[1], a[2] - b[2]>>, <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>, <<-a[1], -a[2]>>,
         <<a[1] + k, a[2]>>, <<a[1] - k, a[2]>>, <<a[1] * k, a[2] * k>>, <<k - a[1], -a[2]>>, <<CDiv(a[1], k), CDiv(a[2], k)>>, <<a[1] * b[1] + a[2] * b[2], a[1] * b[2] - a[2] * b[1]>>, <<a[1], -a[2]>> >>
    [] e[1] = "cmps" -> LET a == e[2]  b == e[3]  lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])  sw(x) == <<x[2], x[1]>> IN
         e[4] = <<lt(a, b), lt(b, a), lt(sw(a), sw(b)), lt(sw(b), sw(a)), a = b, a # b>>
    [] e[1] = "reals" -> LET a == e[2]  b == e[3]  sg(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0 IN      \* numbers and points half, and one and a half times, as large
         e[4] = <<a[1] = b[1], a = b, a[1] = b[2]>> /\ e[5] = <<sg(a[1] - b[1]), sg(a[1])>>
    [] e[1] = "basic" -> LET a == e[2]  b == e[3]  sg(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0 IN
         e[4] = <<a, a, <<a[1], -a[2]>>, b, b>> /\ e[5] = <<sg(a[1]), IF a[1] < b[1] THEN -1 ELSE IF a[1] > b[1] THEN 1 ELSE 0>>
    [] e[1] = "parts" -> LET q == <<e[2], e[3], e[3], e[2]>> IN e[4] = q \o q \o q       \* structured bindings of a line, a ray and a segment
    [] e[1] = "norm" -> NearRoot(e[3], D2(<<0, 0>>, e[2]), 1, 300) /\ e[4] = (IF e[2][2] >= 0 THEN 1 ELSE -1)
    [] e[1] = "rops" -> LET a == e[2]  k == e[3] IN e[4] = << <<a[1] + k, a[2]>>, <<a[1] - k, a[2]>>, <<a[1] * k, a[2] * k>>, <<a[1] + k, a[2]>>, <<k - a[1], -a[2]>>, <<a[1] * k, a[2] * k>> >>
    [] e[1] = "rdiv" -> NearQ(e[4][1], e[2][1], e[3], 3) /\ NearQ(e[4][2], e[2][2], e[3], 3)
    [] e[1] = "rinv" -> LET n == (e[2][1] * e[2][1]) + (e[2][2] * e[2][2]) IN NearQ(e[4][1], e[3] * e[2][1], n, 3) /\ NearQ(e[4][2], -(e[3] * e[2][2]), n, 3)
    [] e[1] = "proj" -> OnLineU(e[2], e[3], e[5]) /\ PerpU(Vec(e[2], e[3]), Vec(Up(e[4]), e[5]), 20)
    [] e[1] = "refl" -> LET q == <<BAdd(BMul(e[4][1], U), e[5][1]), BAdd(BMul(e[4][2], U), e[5][2])>> IN       \* twice the midpoint
         /\ BLe(BAbs(Det2(Vec(e[2], e[3]), Vec(<<BMul(2 * e[2][1], U), BMul(2 * e[2][2], U)>>, q))), BMul(10, BAdd(1, BSqrt(D2(e[2], e[3]))))) /\ PerpU(Vec(e[2], e[3]), Vec(Up(e[4]), e[5]), 20)
    [] e[1] = "dist" -> LET q == DistSq(e[2], e[3], e[4], e[5]) IN NearQ(e[6], q[1], q[2], 3) /\ NearRoot(e[7], q[1], q[2], 3)
    [] e[1] = "segdist" -> LET q == SegSegSq(e[2], e[3], e[4], e[5]) IN NearQ(e[6], q[1], q[2], 3) /\ NearRoot(e[7], q[1], q[2], 3)
    [] e[1] = "segmeet" -> LET a == e[2]  b == e[3]  c == e[4]  d == e[5]  s == SortSeq(<<a, b, c, d>>, LAMBDA p, q : XYLt(p, q)) IN
         IF ~Meet(a, b, c, d) THEN e[6] = <<>>
         ELSE IF ~Par(a, b, c, d) THEN Len(e[6]) = 1 /\ OnLineU(a, b, e[6][1]) /\ OnLineU(c, d, e[6][1])
         ELSE IF s[2] = s[3] THEN Len(e[6]) = 1 /\ ~Apart(e[6][1], Up(s[2]))
         ELSE Len(e[6]) = 2 /\ ~Apart(e[6][1], Up(s[2])) /\ ~Apart(e[6][2], Up(s[3]))
    [] e[1] = "linecoef" -> \* a x + b y + c = 0 holds at both points, which differ
         (\A i \in 5..6 : BLe(BAbs(BAdd(BAdd(BMul(e[2], e[i][1]), BMul(e[3], e[i][2])), BMul(e[4], U))), 100)) /\ Apart(e[5], e[6])
    [] e[1] = "cl" -> IsCL(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "cs" -> IsCS(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "cc" -> IsCC(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "tan" -> IsTan(e[2], e[3], e[4], e[5])
    [] e[1] = "ct" -> IsCT(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "areacc" -> IsAreaCC(e[2], e[3], e[4], e[5], e[6])
    [] e[1] = "areapc" -> IsAreaPC(e[2], e[3], e[4], e[5])
    [] e[1] = "additive" -> Near(BAdd(e[2], e[3]), e[4], 10)
    [] e[1] = "cut" -> LET P == e[2]  a == e[3]  b == e[4]  L == e[5]  R == e[6] IN    \* left and right part of a convex polygon
         /\ \A i \in DOMAIN L : BLe(-1000, Det2(Vec(a, b), Vec(Up(a), L[i]))) /\ \A j \in 1..Len(P) : BLe(-1000, Det2(Vec(P[j], Nx(P, j)), Vec(Up(P[j]), L[i])))
         /\ \A i \in DOMAIN R : BLe(Det2(Vec(a, b), Vec(Up(a), R[i])), 1000) /\ \A j \in 1..Len(P) : BLe(-1000, Det2(Vec(P[j], Nx(P, j)), Vec(Up(P[j]), R[i])))
         /\ BLe(BSub(0, BMul(1000, U)), Area2(L)) /\ BLe(BSub(0, BMul(1000, U)), Area2(R)) /\ Near(BAdd(Area2(L), Area2(R)), BMul(Area2(P), UU), BMul(1000, U))
    [] e[1] = "tri" -> LET a == e[2]  b == e[3]  c == e[4] IN     \* centroid, orthocentre, circumcircle, incircle, excircles
         /\ \A i \in 1..2 : Near(BMul(3, e[5][i]), BMul(a[i] + b[i] + c[i], U), 6)
         /\ PerpU(Vec(Up(a), e[6]), Vec(b, c), 20) /\ PerpU(Vec(Up(b), e[6]), Vec(c, a), 20)
         /\ Near(DU(e[7][1], Up(a)), e[7][2], 5) /\ Near(DU(e[7][1], Up(b)), e[7][2], 5) /\ Near(DU(e[7][1], Up(c)), e[7][2], 5)
         /\ Touches(a, b, c, e[8][1], e[8][2], 1, 1, 1)
         /\ Touches(a, b, c, e[9][1], e[9][2], -1, 1, 1) /\ Touches(a, b, c, e[10][1], e[10][2], 1, -1, 1) /\ Touches(a, b, c, e[11][1], e[11][2], 1, 1, -1)
    [] e[1] = "polar" -> ~Apart(Up(e[2]), e[3]) /\ NearRoot(e[4], D2(<<0, 0>>, e[2]), 1, 3) /\ ~Apart(Up(<<-e[2][2], e[2][1]>>), e[5])
    [] OTHER -> FALSE
\* ============================================================= space
V3(a, b) == <<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>
Dot3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cr3(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Q3(u) == Dot3(u, u)
\* parameter range of a line / ray / segment: t >= 0, t <= 1
Lo(k) == k # "line"
Hi(k) == k = "seg"
PtDist3(k, a, b, p) == LET u == V3(a, b)  t == Dot3(u, V3(a, p)) IN     \* squared, rational
  IF Lo(k) /\ t <= 0 THEN <<Q3(V3(a, p)), 1>> ELSE IF Hi(k) /\ t >= Q3(u) THEN <<Q3(V3(b, p)), 1>> ELSE <<Q3(Cr3(u, V3(a, p))), Q3(u)>>
InRange(k, num, den) == (Lo(k) => num >= 0) /\ (Hi(k) => num <= den)        \* den > 0
Ends(k, a, b) == (IF Lo(k) THEN {a} ELSE {}) \cup (IF Hi(k) THEN {b} ELSE {})
KDist3(k, a, b, m, c, d) == LET u == V3(a, b)  v == V3(c, d)  w == V3(c, a)  n == Cr3(u, v)
      A == Q3(u)  B == Dot3(u, v)  C == Q3(v)  D == Dot3(u, w)  E == Dot3(v, w)  den == A * C - B * B
      ends == {PtDist3(m, c, d, p) : p \in Ends(k, a, b)} \cup {PtDist3(k, a, b, p) : p \in Ends(m, c, d)} IN
  IF den # 0 /\ InRange(k, B * E - C * D, den) /\ InRange(m, A * E - B * D, den) THEN <<BMul(Dot3(w, n), Dot3(w, n)), Q3(n)>>
  ELSE IF ends = {} THEN PtDist3("line", c, d, a) ELSE QMin(ends)
\* the common point of two non-parallel lines etc.: <<exists, parameter num, den>>
KCross3(k, a, b, m, c, d) == LET u == V3(a, b)  v == V3(c, d)  w == V3(c, a)  n == Cr3(u, v)  A == Q3(u)  B == Dot3(u, v)  C == Q3(v)  D == Dot3(u, w)  E == Dot3(v, w)  den == A * C - B * B IN
  <<Dot3(w, n) = 0 /\ InRange(k, B * E - C * D, den) /\ InRange(m, A * E - B * D, den), B * E - C * D, den>>
AtU(a, b, num, den, out) == \A i \in 1..3 : NearQ(out[i], BAdd(BMul(a[i], den), BMul(b[i] - a[i], num)), den, 5)
PlN(P) == Cr3(V3(P[1], P[2]), V3(P[1], P[3]))
PlF(P, p) == Dot3(PlN(P), V3(P[1], p))
PlCross(P, k, a, b) == LET f == PlF(P, a)  g == PlF(P, b)  d == f - g IN       \* f + t (g - f) = 0 at t = f / d
  IF d = 0 THEN <<f = 0, 0, 1>> ELSE LET num == IF d < 0 THEN -f ELSE f  den == Abs(d) IN <<InRange(k, num, den), num, den>>
Geo3Ok(e) ==
  CASE e[1] = "ptdist" -> LET q == PtDist3(e[2], e[3], e[4], e[5]) IN NearRoot(e[6], q[1], q[2], 4) /\ e[7] = (q[1] = 0)
    [] e[1] = "proj" -> LET u == V3(e[2], e[3]) IN AtU(e[2], e[3], Dot3(u, V3(e[2], e[4])), Q3(u), e[5])
    [] e[1] = "kdist" -> LET q == KDist3(e[2], e[3], e[4], e[5], e[6], e[7]) IN NearRoot(e[8], q[1], q[2], 4)
    [] e[1] = "rel" -> LET u == V3(e[2], e[3])  v == V3(e[4], e[5]) IN e[6] = (Q3(Cr3(u, v)) = 0) /\ e[7] = (Dot3(u, v) = 0)
    [] e[1] = "cross" -> LET q == KCross3(e[2], e[3], e[4], e[2], e[5], e[6]) IN IF q[1] THEN Len(e[7]) = 1 /\ AtU(e[3], e[4], q[2], q[3], e[7][1]) ELSE e[7] = <<>>
    [] e[1] = "pldist" -> LET f == PlF(e[2], e[3]) IN NearRoot(e[4], f * f, Q3(PlN(e[2])), 4) /\ e[5] = (f = 0)
    [] e[1] = "plproj" -> LET n == PlN(e[2])  f == PlF(e[2], e[3]) IN \A i \in 1..3 : NearQ(e[4][i], e[3][i] * Q3(n) - f * n[i], Q3(n), 5)
    [] e[1] = "plk" -> LET q == PlCross(e[2], e[3], e[4], e[5])  d == QMin({<<PlF(e[2], p) * PlF(e[2], p), Q3(PlN(e[2]))>> : p \in {e[4]} \cup Ends(e[3], e[4], e[5])}) IN
         /\ (IF q[1] THEN Near(e[6], 0, 4) ELSE NearRoot(e[6], d[1], d[2], 4))
         /\ (IF q[1] THEN Len(e[7]) = 1 /\ (IF PlF(e[2], e[4]) = 0 THEN AtU(e[4], e[5], 0, 1, e[7][1]) ELSE AtU(e[4], e[5], q[2], q[3], e[7][1])) ELSE e[7] = <<>>)
         /\ e[8] = (PlF(e[2], e[4]) = PlF(e[2], e[5])) /\ e[9] = (Q3(Cr3(PlN(e[2]), V3(e[4], e[5]))) = 0)
    [] e[1] = "ontri" -> LET T == e[2]  n == PlN(T)  s(i) == Dot3(n, Cr3(V3(T[i], T[(i % 3) + 1]), V3(T[i], e[3]))) IN e[4] = (PlF(T, e[3]) = 0 /\ \A i \in 1..3 : s(i) >= 0)
    [] e[1] = "pops" -> LET a == e[2]  b == e[3]  k == e[4] IN e[5] = << [i \in 1..3 |-> (a[i] + b[i]) * U], [i \in 1..3 |-> (a[i] - b[i]) * U], [i \in 1..3 |-> Cr3(a, b)[i] * U], [i \in 1..3 |-> a[i] * k * U], [i \in 1..3 |-> -(a[i] * U)] >> /\ e[6] = Dot3(a, b) * U
    [] OTHER -> FALSE
GeoNext(k, p, e) == UNCHANGED st /\ Holds(IF k = "geo" THEN GeoOk(e) ELSE Geo3Ok(e))
=============================================================================
