-------------------------------- MODULE Fold --------------------------------
(* The generic algebra used to drive monoid-parameterised structures.       *)
(* Elements are residues mod PR.  The fold of a sequence is its polynomial  *)
(* hash: a non-commutative monoid in which (up to hash collisions) the fold *)
(* determines the sequence, so a wrong fold in any monoid shows up here.    *)
(* The acting operators are affine maps x -> a*x + b, also non-commutative. *)
EXTENDS Common
PR == 32749
BASE == 257
NoElem == -1                                         \* an element that is the identity
Hash(s) == FoldLeft(LAMBDA a, x : IF x = NoElem THEN a ELSE (a * BASE + x) % PR, 0, s)
Cnt(s) == FoldLeft(LAMBDA a, x : IF x = NoElem THEN a ELSE a + 1, 0, s)
FoldOf(s) == <<Hash(s), Cnt(s)>>                      \* what a fold query must return
RFoldOf(s) == FoldOf(Reverse(s))
Aff(f, x) == (f[1] * x + f[2]) % PR
After(f, g) == <<(f[1] * g[1]) % PR, (f[1] * g[2] + f[2]) % PR>>   \* f after g
ActOn(s, l, r, f) == [i \in DOMAIN s |-> IF l < i /\ i <= r THEN Aff(f, s[i]) ELSE s[i]]
=============================================================================
