------------------------------ MODULE Gen_C06 -------------------------------
EXTENDS GenBase, PartitionMachine
CONSTANT N, WDepth
El == 0..(N - 1)
Init == /\ st = PInit(N, <<>>)
        /\ h \in {<< <<"undo", N>> >>, << <<"weighted", 3>> >>}
Call(c) == PartitionStep(c) /\ Say(c)
Next == \/ /\ h[1][1] = "undo" /\ More
           /\ \/ \E x, y \in El : x # y /\ Call(<<"merge", x, y, ~Same(st.lab, x, y)>>)
              \/ Call(<<"undo">>) \/ Call(<<"snapshot">>) \/ Call(<<"rollback">>)
        \/ /\ h[1][1] = "weighted" /\ Len(h) <= WDepth
           /\ \E x, y \in 0..2 : x # y /\ \E d \in {<<3, 1>>, <<5, 0>>} : Call(<<"wmerge", x, y, d, ~Same(st.lab, x, y)>>)
Spec == Init /\ [][Next]_gvars
GEmit == IF h[1][1] = "undo" THEN Emit ELSE Len(h) <= WDepth \/ PrintT("GEN " \o ToJson(h))
\* laws of the machine
Canonical == \A i \in DOMAIN st.lab : st.lab[i] <= i - 1 /\ st.lab[st.lab[i] + 1] = st.lab[i]
Finer(a, b) == \A x, y \in El : Same(a, x, y) => Same(b, x, y)
LogRefines == \A i \in DOMAIN st.log : Finer(st.log[i], IF i = Len(st.log) THEN st.lab ELSE st.log[i + 1]) /\ st.log[i] # (IF i = Len(st.log) THEN st.lab ELSE st.log[i + 1])
\* the potential difference recorded for a merge that joined two classes is the one imposed
Imposed == h[1][1] = "weighted" /\ Len(h) > 1 => LET c == h[Len(h)] IN c[5] => GMul(GInv(st.w[c[2] + 1]), st.w[c[3] + 1]) = c[4]
=============================================================================
