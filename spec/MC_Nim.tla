---- MODULE MC_Nim ----
(* The recursive nimber product is the product of the mex definition.       *)
EXTENDS TextMachine
RECURSIVE Mex(_, _)
Mex(S, i) == IF i \in S THEN Mex(S, i + 1) ELSE i
X(a, b) == BInt(BXor(a, b))
\* table of a (*) b for a, b < 16, filled in order from the definition
Ent(T, a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE Mex({X(X(T[<<i, b>>], T[<<a, j>>]), T[<<i, j>>]) : i \in 0..(a - 1), j \in 0..(b - 1)}, 0)
Tab == TLCEval(FoldLeft(LAMBDA T, k : LET a == (k - 1) \div 16  b == (k - 1) % 16 IN TLCEval([T EXCEPT ![<<a, b>>] = Ent(T, a, b)]),
               [q \in (0..15) \X (0..15) |-> 0], [k \in 1..256 |-> k]))
ASSUME \A a, b \in 0..15 : BEq(NimMul(a, b), Tab[<<a, b>>])
\* and a field: associative, distributive, inverses
Big3 == {"65535", "65536", "4294967297", "18446744073709551615", "123456789012345"}
ASSUME \A a, b, c \in Big3 : BEq(NimMul(NimMul(a, b), c), NimMul(a, NimMul(b, c))) /\ BEq(NimMul(a, BXor(b, c)), BXor(NimMul(a, b), NimMul(a, c)))
Init == st = 0
Next == UNCHANGED st
====
