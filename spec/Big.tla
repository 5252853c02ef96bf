-------------------------------- MODULE Big ---------------------------------
(* Integers without size limit, written as decimal strings: TLC's built-in  *)
(* integers have 32 bits, the library's have 64 to unboundedly many.  The   *)
(* operators below are the usual mathematical functions; TLC evaluates them *)
(* with java.math.BigInteger (java/tlc2/module/Big.java).  Arguments may be *)
(* TLC integers or decimal strings, numeric results are decimal strings     *)
(* unless stated otherwise.                                                 *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL Num(x) == CHOOSE v \in {} : x = v      \* never evaluated: overridden
BAdd(x, y) == Num(<<x, y>>)
BSub(x, y) == Num(<<x, y>>)
BMul(x, y) == Num(<<x, y>>)
BNeg(x) == Num(x)
BAbs(x) == Num(x)
BDiv(x, y) == Num(<<x, y>>)                  \* floor division
BMod(x, y) == Num(<<x, y>>)                  \* remainder of floor division
BQuo(x, y) == Num(<<x, y>>)                  \* division truncated towards 0
BRem(x, y) == Num(<<x, y>>)
BPow(x, n) == Num(<<x, n>>)
BPowMod(x, e, m) == Num(<<x, e, m>>)
BGcd(x, y) == Num(<<x, y>>)
BSqrt(x) == Num(x)                           \* floor
BXor(x, y) == Num(<<x, y>>)
BAnd(x, y) == Num(<<x, y>>)
BOr(x, y) == Num(<<x, y>>)
BShl(x, n) == Num(<<x, n>>)
BShr(x, n) == Num(<<x, n>>)                  \* arithmetic
BBits(x) == Num(x)                           \* bit length (TLC integer)
BPopcount(x) == Num(x)                       \* (TLC integer)
BBit(x, i) == Num(<<x, i>>)                  \* 0 or 1 (TLC integer)
BLt(x, y) == Num(<<x, y>>) = TRUE
BLe(x, y) == Num(<<x, y>>) = TRUE
BEq(x, y) == Num(<<x, y>>) = TRUE
BInt(x) == Num(x)                            \* as TLC integer
BStr(x) == Num(x)
BIsPrime(x) == Num(x) = TRUE
BSum(q) == Num(q)
BProd(q) == Num(q)
BDot(p, q) == Num(<<p, q>>)
BMin(x, y) == Num(<<x, y>>)
BMax(x, y) == Num(<<x, y>>)
BPrimesIn(x, n) == Num(<<x, n>>)             \* ascending sequence of the k in 0..n-1 with x+k prime (TLC integers)
BModInv(x, m) == Num(<<x, m>>)                \* inverse modulo m (gcd 1)
BPhi(x) == Num(x)                            \* Euler's totient
BLcm(x, y) == Num(<<x, y>>)
Codes(x) == Num(x)                           \* the character codes of a string, as a sequence
=============================================================================
