--------------------------- MODULE LinkCutMachine ---------------------------
(* A rooted forest under link, cut and evert.  st.par maps a vertex to its  *)
(* parent (-1 at roots); st.val is the sequence of vertex values.           *)
EXTENDS TreeBase
LcInit(vals) == [par |-> [u \in 0..Len(vals)-1 |-> -1], val |-> vals]
Keep == UNCHANGED st
\* re-root u's tree at u: reverse the parents along the root path
Evert(par, u) == LET a == RootPath(par, u) IN
   [w \in DOMAIN par |-> LET is == {i \in DOMAIN a : a[i] = w} IN IF is = {} THEN par[w] ELSE LET i == CHOOSE j \in is : TRUE IN IF i = Len(a) THEN -1 ELSE a[i + 1]]
SetPar(p) == st' = [st EXCEPT !.par = p]
Val(u) == st.val[u + 1]
Vals(path) == [i \in DOMAIN path |-> Val(path[i])]
ActSet(S, f) == [i \in DOMAIN st.val |-> IF (i - 1) \in S THEN Aff(f, st.val[i]) ELSE st.val[i]]
LinkCutStep(e) ==
  CASE e[1] = "link" -> ~SameTree(st.par, e[2], e[3]) /\ SetPar([Evert(st.par, e[2]) EXCEPT ![e[2]] = e[3]])
    [] e[1] = "cut1" -> st.par[e[2]] >= 0 /\ SetPar([st.par EXCEPT ![e[2]] = -1])
    [] e[1] = "cut2" -> (st.par[e[2]] = e[3] \/ st.par[e[3]] = e[2]) /\ SetPar([Evert(st.par, e[2]) EXCEPT ![e[3]] = -1])
    [] e[1] = "evert" -> SetPar(Evert(st.par, e[2]))
    [] e[1] = "conn" -> e[4] = SameTree(st.par, e[2], e[3]) /\ Keep
    [] e[1] = "lca" -> e[4] = (IF SameTree(st.par, e[2], e[3]) THEN LcaOf(st.par, e[2], e[3]) ELSE -1) /\ Keep
    [] e[1] = "get" -> e[3] = Val(e[2]) /\ Keep
    [] e[1] = "set" -> st' = [st EXCEPT !.val[e[2] + 1] = e[3]]
    [] e[1] = "rpath" -> e[3] = RootPath(st.par, e[2]) /\ Keep
    [] e[1] = "path" -> /\ e[4] = (IF SameTree(st.par, e[2], e[3]) THEN TreePath(st.par, e[2], e[3]) ELSE <<>>)
                        /\ SetPar(Evert(st.par, e[2]))
    [] e[1] = "rprod" -> e[3] = FoldOf(Vals(RootPath(st.par, e[2]))) /\ Keep
    [] e[1] = "prod" -> e[4] = FoldOf(Vals(TreePath(st.par, e[2], e[3]))) /\ SetPar(Evert(st.par, e[2]))
    [] e[1] = "ract" -> st' = [st EXCEPT !.val = ActSet(SeqToSet(RootPath(st.par, e[2])), e[3])]
    [] e[1] = "act" -> st' = [par |-> Evert(st.par, e[2]), val |-> ActSet(SeqToSet(TreePath(st.par, e[2], e[3])), e[4])]
    [] OTHER -> FALSE
=============================================================================
