--------------------------- MODULE TreeAggMachine ---------------------------
(* Aggregation over trees: distance contours with updates, re-rooted tree   *)
(* DP, and tree DP under point updates.                                     *)
EXTENDS TreeBase
\* p = <<n, edges, values, op>>
AggInit(p) == LET adj == AdjOf(p[1], p[2])  par == ParOf(RootedAt(adj, {0})) IN
  [n |-> p[1], val |-> p[3], op |-> p[4], dist |-> [q \in (0..p[1]-1) \X (0..p[1]-1) |-> IF q[1] <= q[2] THEN DistOf(par, q[1], q[2]) ELSE 0]]
D(u, v) == IF u <= v THEN st.dist[<<u, v>>] ELSE st.dist[<<v, u>>]
Keep == UNCHANGED st
Comb(op, a, b) == IF op = "max" THEN MaxOf(a, b) ELSE (a + b) % PR
Band(u, dl, dr) == SelectSeq([i \in 1..st.n |-> i], LAMBDA i : dl <= D(u, i - 1) /\ D(u, i - 1) < dr)
BandSum(u, dl, dr) == FoldLeft(LAMBDA a, i : Comb(st.op, a, st.val[i]), 0, Band(u, dl, dr))
ContourStep(e) ==
  CASE e[1] = "sum" -> e[5] = BandSum(e[2], e[3], e[4]) /\ Keep
    [] e[1] = "get" -> e[3] = st.val[e[2] + 1] /\ Keep
    [] e[1] = "add" -> st' = [st EXCEPT !.val[e[2] + 1] = Comb(st.op, @, e[3])]
    [] e[1] = "set" -> st' = [st EXCEPT !.val[e[2] + 1] = e[3]]
    [] e[1] = "act" -> st' = [st EXCEPT !.val = [i \in 1..st.n |-> IF e[3] <= D(e[2], i - 1) /\ D(e[2], i - 1) < e[4] THEN Comb(st.op, st.val[i], e[5]) ELSE st.val[i]]]
    [] OTHER -> FALSE
\* re-rooting: the DP value of every vertex taken as root
AddSub(x, vw, ew) == (x * x + 3 * vw + 5 * ew + 1) % PR
AddRoot(x, vw) == (7 * x + vw * vw) % PR
RECURSIVE RSum(_, _, _, _, _, _)
RSum(adj, w, ew, op, u, p) == FoldSet(LAMBDA v, a : Comb(op, a, AddSub(RSum(adj, w, ew, op, v, u), w[v + 1], ew[<<u, v>>])), 0, adj[u] \ {p})
RerootOk(n, edges, w, op, res) ==
  LET adj == AdjOf(n, edges)
      ew == [q \in {<<edges[i][1], edges[i][2]>> : i \in DOMAIN edges} \cup {<<edges[i][2], edges[i][1]>> : i \in DOMAIN edges} |->
               LET i == CHOOSE j \in DOMAIN edges : {edges[j][1], edges[j][2]} = {q[1], q[2]} IN edges[i][3]]
  IN Len(res) = n /\ \A u \in 0..n-1 : res[u + 1] = AddRoot(RSum(adj, w, ew, op, u, -1), w[u + 1])
RerootStep(e) == e[1] = "reroot" /\ RerootOk(e[2], e[3], e[4], e[5], e[6]) /\ Keep
\* tree DP with point updates: F(u) = val(u) + sum over children v of a(v) F(v) + b(v)
TopInit(p) == LET adj == AdjOf(p[1], p[2])  pd == RootedAt(adj, {p[3]}) IN [n |-> p[1], par |-> ParOf(pd), ch |-> [u \in 0..p[1]-1 |-> {v \in 0..p[1]-1 : pd[v][1] = u}], root |-> p[3], w |-> p[4]]
RECURSIVE TFw(_, _)
TFw(w, u) == FoldSet(LAMBDA v, s : (s + ((w[v + 1][2] * TFw(w, v)) % PR) + w[v + 1][3]) % PR, w[u + 1][1], st.ch[u])
TopStep(e) ==
  CASE e[1] = "ans" -> e[2] = (st.w[st.root + 1][2] * TFw(st.w, st.root) + st.w[st.root + 1][3]) % PR /\ Keep
    [] e[1] = "upd" -> LET w == [st.w EXCEPT ![e[2] + 1] = e[3]] IN e[4] = (w[st.root + 1][2] * TFw(w, st.root) + w[st.root + 1][3]) % PR /\ st' = [st EXCEPT !.w = w]
    [] e[1] = "shape" -> Keep /\ e[4] /\ \A u \in 0..st.n-1 : e[2][u + 1] = st.par[u] /\ e[3][u + 1] = Cardinality(SubtreeOf(st.par, u))
    [] OTHER -> FALSE
=============================================================================
