------------------------------ MODULE Gen_C12 -------------------------------
EXTENDS GenBase, LinkCutMachine
CONSTANT N
V == 0..(N - 1)
Init == h = << <<"lct", N>> >> /\ st = LcInit([i \in 1..N |-> i])
Call(c) == LinkCutStep(c) /\ Say(c)
Next == More /\
  \/ \E u, v \in V : u # v /\ Call(<<"link", u, v>>)
  \/ \E u \in V : Call(<<"cut1", u>>)
  \/ \E u \in V : RootPath(st.par, u) # <<u>> /\ Call(<<"evert", u>>)
Spec == Init /\ [][Next]_gvars
\* laws: the forest stays acyclic, everting only moves the root, paths are inverse to each other
Acyclic == \A u \in V : Len(RootPath(st.par, u)) <= N
EvertLaw == \A u, v, w \in V : SameTree(st.par, u, v) /\ SameTree(st.par, u, w) =>
   LET p == Evert(st.par, u) IN RootPath(p, u) = <<u>> /\ SameTree(p, u, v) /\ TreePath(p, v, w) = TreePath(st.par, v, w)
PathLaw == \A u, v \in V : SameTree(st.par, u, v) => TreePath(st.par, u, v) = Reverse(TreePath(st.par, v, u))
=============================================================================
