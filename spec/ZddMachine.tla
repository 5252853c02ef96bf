----------------------------- MODULE ZddMachine -----------------------------
(* Zero-suppressed decision diagrams (datastructure/ZDD): st is a sequence  *)
(* of families of finite sets of positive integers; every operation appends *)
(* or overwrites a family.  Diagrams share nodes and memo tables, so earlier*)
(* results must not change later ones.                                      *)
EXTENDS Common, MState
Fam(i) == st[i + 1]
Put(i, f) == st' = [st EXCEPT ![i + 1] = TLCEval(f)]
Toggle(a, v) == IF v \in a THEN a \ {v} ELSE a \cup {v}
Level(f) == LET u == UNION f IN IF u = {} THEN 0 ELSE Max(u)
(* the subdiagrams below a family: without and with its greatest item *)
Lo(f) == LET v == Level(f) IN {a \in f : v \notin a}
Hi(f) == LET v == Level(f) IN {a \ {v} : a \in {b \in f : v \in b}}
RECURSIVE Nodes(_)
Nodes(fs) == \* fs: set of families with an item; all families reachable from them
  LET nx == {Lo(f) : f \in fs} \cup {Hi(f) : f \in fs}  new == {f \in nx : Level(f) > 0} \ fs IN
  IF new = {} THEN fs ELSE Nodes(fs \cup new)
MaxSize(f) == Max({Cardinality(a) : a \in f})
ToSets(q) == {Range(q[i]) : i \in 1..Len(q)}
ZddStep(e) ==
  CASE e[1] = "zero" -> Put(e[2], {})
    [] e[1] = "one" -> Put(e[2], {{}})
    [] e[1] = "copy" -> Put(e[2], Fam(e[3]))
    [] e[1] = "and" -> Put(e[2], Fam(e[3]) \cap Fam(e[4]))
    [] e[1] = "or" -> Put(e[2], Fam(e[3]) \cup Fam(e[4]))
    [] e[1] = "diff" -> Put(e[2], Fam(e[3]) \ Fam(e[4]))
    [] e[1] = "xor" -> Put(e[2], SymDiff(Fam(e[3]), Fam(e[4])))
    [] e[1] = "change" -> Put(e[2], {Toggle(a, e[4]) : a \in Fam(e[3])})
    [] e[1] = "onset0" -> Put(e[2], {a \ {e[4]} : a \in {b \in Fam(e[3]) : e[4] \in b}})
    [] e[1] = "onset1" -> Put(e[2], {a \in Fam(e[3]) : e[4] \in a})
    [] e[1] = "offset" -> Put(e[2], {a \in Fam(e[3]) : e[4] \notin a})
    [] e[1] = "restrict" -> Put(e[2], {a \in Fam(e[3]) : \E b \in Fam(e[4]) : b \subseteq a})
    [] e[1] = "permit" -> Put(e[2], {a \in Fam(e[3]) : \E b \in Fam(e[4]) : a \subseteq b})
    [] e[1] = "child" -> Level(Fam(e[3])) > 0 /\ Put(e[2], IF e[4] = 0 THEN Lo(Fam(e[3])) ELSE Hi(Fam(e[3])))
    [] e[1] = "node" -> Put(e[2], Fam(e[3]) \cup {a \cup {e[5]} : a \in Fam(e[4])})    \* create_zdd(low, high, level)
    \* queries
    [] OTHER -> UNCHANGED st /\ Holds(
        LET f == Fam(e[2]) IN
        CASE e[1] = "list" -> Len(e[3]) = Cardinality(f) /\ ToSets(e[3]) = f            \* every set once (read off the diagram)
          [] e[1] = "card" -> e[3] = Cardinality(f)
          [] e[1] = "len" -> IF f = {} THEN e[3] < 0 ELSE e[3] = MaxSize(f)
          [] e[1] = "longest" -> IF f = {} THEN e[3] = FALSE
                                 ELSE e[3] = TRUE /\ Range(e[4]) \in f /\ Len(e[4]) = MaxSize(f) /\ Cardinality(Range(e[4])) = Len(e[4])
          [] e[1] = "top" -> e[3] = Level(f) /\ e[4] = (f = {}) /\ e[5] = (f = {{}})
          [] e[1] = "size" -> e[3] = (IF Level(f) = 0 THEN 0 ELSE Cardinality(Nodes({f})))   \* reduced: one node per distinct subfamily
          [] OTHER -> FALSE)
ZddInit(k, p) == [i \in 1..6 |-> {}]
ZddNext(k, p, e) == IF k = "zlev" THEN e[2] = e[3] /\ UNCHANGED st ELSE ZddStep(e)     \* fresh levels are numbered upwards
=============================================================================
