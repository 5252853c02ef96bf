----------------------------- MODULE StrMachine -----------------------------
(* Strings are sequences of integers; positions are 0-based as in the API.  *)
(* Every answer is stated by its definition on the string itself.           *)
EXTENDS Common, MState, Big
OccAt(s, t, i) == i >= 0 /\ i + Len(t) <= Len(s) /\ \A k \in 1..Len(t) : s[i + k] = t[k]
Occ(s, t) == {i \in 0..(Len(s) - Len(t)) : OccAt(s, t, i)}
Incr(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
NoRep(q) == Cardinality(SeqToSet(q)) = Len(q)
ListOf(q, S) == SeqToSet(q) = S /\ Len(q) = Cardinality(S)        \* each element once
Pref(s, k) == SubSeq(s, 1, k)
SufOf(t, s) == Len(t) <= Len(s) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
IsPrefix2(t, s) == Len(t) <= Len(s) /\ Pref(s, Len(t)) = t
IsPeriod(s, p) == \A i \in 1..(Len(s) - p) : s[i] = s[i + p]
Periods(s) == {p \in 1..Len(s) : IsPeriod(s, p)}
MinPeriod(s) == Min(Periods(s))
IsPal(s) == \A i \in 1..Len(s) : s[i] = s[Len(s) + 1 - i]
Subs(s) == {<<>>} \cup {SubSeq(s, x[1], x[2]) : x \in {y \in (1..Len(s)) \X (1..Len(s)) : y[1] <= y[2]}}
PalSubs(s) == {t \in Subs(s) : t # <<>> /\ IsPal(t)}
\* ---------------------------------------------------------------- stateless questions about a string
BorderLen(s) == Max({k \in 0..(Len(s) - 1) : Pref(s, k) = SubSeq(s, Len(s) - k + 1, Len(s))})
PalAt(s, c) ==   \* longest palindrome with centre c/2 - 1/2, c in 0..2n (even: between letters)
  Max({x \in 0..Len(s) : (x % 2) = (c % 2) /\ (c - x) \div 2 >= 0 /\ (c + x) \div 2 <= Len(s) /\ IsPal(Sl(s, (c - x) \div 2, (c + x) \div 2))})
Runs(s) == LET n == Len(s) IN
  {<<p, l, r>> \in (1..(n \div 2)) \X (0..(n - 1)) \X (1..n) :
     /\ r - l >= 2 * p
     /\ IsPeriod(Sl(s, l, r), p)
     /\ (l > 0 => s[l] # s[l + p]) /\ (r < n => s[r + 1] # s[r + 1 - p])
     /\ \A q \in 1..(p - 1) : ~IsPeriod(Sl(s, l, r), q)}
Sgn(a, b) == IF a = b THEN 0 ELSE IF LexLt(a, b) THEN -1 ELSE 1
StrStep(e) ==
  \/ /\ e[1] = "ab"       \* p letters a then q letters b: distinct substrings are a^i b^j. size, those before "b", those from "b" on
     /\ Holds(BEq(e[4], BMul(e[2] + 1, e[3] + 1)) /\ BEq(e[5], BAdd(1, BMul(e[2], e[3] + 1))) /\ BEq(e[6], e[3]))
     /\ UNCHANGED st
  \/ /\ e[1] = "mp" /\ Holds(Len(e[3]) = Len(e[2]) + 1 /\ e[3][1] = -1 /\ \A i \in 1..Len(e[2]) : e[3][i + 1] = BorderLen(Pref(e[2], i)))
     /\ UNCHANGED st
  \/ /\ e[1] = "periods" /\ Holds(LET n == Len(e[2]) IN Incr(e[4]) /\ SeqToSet(e[4]) = {p \in Periods(e[2]) : e[3] \/ (n % p) = 0}) /\ UNCHANGED st
  \/ /\ e[1] = "minp" /\ Holds(e[4] = Pref(e[2], Min({p \in Periods(e[2]) : e[3] \/ (Len(e[2]) % p) = 0}))) /\ UNCHANGED st
  \/ /\ e[1] = "match" /\ Holds(Incr(e[4]) /\ SeqToSet(e[4]) = Occ(e[3], e[2])) /\ UNCHANGED st
  \/ /\ e[1] = "manacher" /\ Holds(LET n == Len(e[2]) IN
          /\ Len(e[3]) = 2 * n + 1 /\ \A c \in 0..(2 * n) : e[3][c + 1] = PalAt(e[2], c)
          /\ e[4] = [i \in 1..n |-> e[3][2 * i]] /\ e[5] = [i \in 1..(n + 1) |-> e[3][2 * i - 1]])
     /\ UNCHANGED st
  \/ /\ e[1] = "cmp" /\ Holds(\A i \in DOMAIN e[3] : LET q == e[3][i]  a == Sl(e[2], q[1], q[2])  b == Sl(e[2], q[3], q[4]) IN q[5] = Lcp(a, b) /\ q[6] = Sgn(a, b) /\ q[7] = (a = b) /\ q[8] = LexLt(a, b) /\ q[9] = (a = b \/ LexLt(a, b)))
     /\ UNCHANGED st
  \/ /\ e[1] = "runs" /\ Holds(ListOf(e[3], Runs(e[2]))) /\ UNCHANGED st
  \/ /\ e[1] = "runcmp" /\ Holds(\A i \in DOMAIN e[2] : LET q == e[2][i] IN LET lt == LexLt(<<q[1], q[2], q[3]>>, <<q[4], q[5], q[6]>>) IN LET gt == LexLt(<<q[4], q[5], q[6]>>, <<q[1], q[2], q[3]>>) IN
        q[7] = lt /\ q[8] = ~gt /\ q[9] = gt /\ q[10] = ~lt /\ q[11] = (~lt /\ ~gt) /\ q[12] = (lt \/ gt)) /\ UNCHANGED st
  \/ /\ e[1] = "heq" /\ Holds(\A i \in DOMAIN e[3] : LET q == e[3][i] IN q[5] = (Sl(e[2], q[1], q[2]) = Sl(e[2], q[3], q[4]))) /\ UNCHANGED st
  \/ /\ e[1] = "hcat" /\ Holds(\A i \in DOMAIN e[3] : LET q == e[3][i] IN q[7] = (Sl(e[2], q[1], q[2]) \o Sl(e[2], q[3], q[4]) = Sl(e[2], q[5], q[6]))) /\ UNCHANGED st
  \/ /\ e[1] = "hlcp" /\ Holds(\A i \in DOMAIN e[3] : LET q == e[3][i] IN q[3] = Lcp(Sl(e[2], q[1], Len(e[2])), Sl(e[2], q[2], Len(e[2])))) /\ UNCHANGED st
  \/ /\ e[1] = "hcross" /\ Holds(e[4] = (e[2] = e[3])) /\ UNCHANGED st
\* ---------------------------------------------------------------- a set of patterns; st = sequence of patterns
PatPrefixes == UNION {{Pref(st[i], k) : k \in 0..Len(st[i])} : i \in DOMAIN st} \cup {<<>>}
PatStep(e) ==
  \/ e[1] = "add" /\ st' = Append(st, e[2])
  \/ /\ e[1] = "feed"       \* text, number of patterns ending at each position (before the first letter too)
     /\ Holds(Len(e[3]) = Len(e[2]) + 1 /\ \A k \in 0..Len(e[2]) : e[3][k + 1] = Cardinality({i \in DOMAIN st : SufOf(st[i], Pref(e[2], k))}))
     /\ UNCHANGED st
  \/ /\ e[1] = "states" /\ Holds(e[2] = Cardinality(PatPrefixes)) /\ UNCHANGED st
  \/ /\ e[1] = "walk" /\ Holds(e[3] = (e[2] \in PatPrefixes) /\ (e[3] => e[4] = Cardinality({i \in DOMAIN st : st[i] = e[2]}))) /\ UNCHANGED st
  \/ /\ e[1] = "links" /\ Holds(\A i \in DOMAIN e[2] : e[2][i]) /\ UNCHANGED st
\* ---------------------------------------------------------------- palindromic tree; st = string so far
LongestPalSuf(s, k) == Max({j \in 0..k : IsPal(SubSeq(s, Len(s) - j + 1, Len(s)))})   \* at most k letters
PalStep(e) ==
  \/ e[1] = "add" /\ st' = Append(st, e[2]) /\ Holds(LET t == Append(st, e[2]) IN e[3] = SubSeq(t, Len(t) - LongestPalSuf(t, Len(t)) + 1, Len(t)))
  \/ e[1] = "clear" /\ st' = <<>>
  \/ /\ e[1] = "dump"       \* nodes 2..: <<content, length, first occurrence, suffix link, occurrences, parent, children>>; indices 0-based
     /\ Holds(LET N == e[2]  C(i) == IF i <= 1 THEN <<>> ELSE N[i + 1][1] IN
        /\ Len(N) >= 2 /\ N[1][2] = -1 /\ N[2][2] = 0 /\ N[2][4] = 0
        /\ ListOf([i \in 1..(Len(N) - 2) |-> N[i + 2][1]], PalSubs(st))
        /\ \A i \in 2..(Len(N) - 1) : LET x == N[i + 1]  t == x[1] IN
              /\ x[2] = Len(t) /\ x[3] = Min(Occ(st, t)) /\ x[5] = Cardinality(Occ(st, t))
              /\ x[4] >= 1 /\ C(x[4]) = SubSeq(t, Len(t) - LongestPalSuf(t, Len(t) - 1) + 1, Len(t)) /\ (x[4] = 1 <=> C(x[4]) = <<>>)
              /\ IF Len(t) = 1 THEN x[6] = 0 ELSE IF Len(t) = 2 THEN x[6] = 1 ELSE C(x[6]) = SubSeq(t, 2, Len(t) - 1)
        /\ \A i \in 0..(Len(N) - 1) : LET ch == N[i + 1][7] IN
              /\ {<<ch[j][1], C(ch[j][2])>> : j \in DOMAIN ch} = {<<t[1], t>> : t \in {u \in PalSubs(st) : IF i = 0 THEN Len(u) = 1 ELSE Len(u) >= 2 /\ SubSeq(u, 2, Len(u) - 1) = C(i)}})
     /\ UNCHANGED st
\* ---------------------------------------------------------------- suffix automaton and substring set; st = string so far
Lcsub(s, t) == Max({Len(u) : u \in Subs(s) \cap Subs(t)})
RankLt(t) == Cardinality({u \in Subs(st) : LexLt(u, t)})
SamStep(e) ==
  \/ e[1] = "append" /\ st' = Append(st, e[2])
  \/ e[1] = "build" /\ st' = e[2]
  \/ /\ e[1] = "occ"     \* pattern, accepted, count, first, all
     /\ Holds(LET O == Occ(st, e[2]) IN e[3] = (O # {}) /\ e[4] = Cardinality(O) /\ e[5] = (IF O = {} THEN -1 ELSE Min(O)) /\ ListOf(e[6], O))
     /\ UNCHANGED st
  \/ /\ e[1] = "lcs" /\ Holds(e[5] = Lcsub(st, e[2]) /\ e[3] >= 0 /\ e[4] >= 0 /\ e[3] + e[5] <= Len(st) /\ e[4] + e[5] <= Len(e[2]) /\ Sl(st, e[3], e[3] + e[5]) = Sl(e[2], e[4], e[4] + e[5])) /\ UNCHANGED st
  \/ /\ e[1] = "distinct" /\ Holds(e[2] = Cardinality(Subs(st))) /\ UNCHANGED st
  \/ /\ e[1] = "all" /\ Holds(ListOf(e[2], Subs(st)) /\ \A i \in 1..(Len(e[2]) - 1) : LexLt(e[2][i], e[2][i + 1])) /\ UNCHANGED st
  \/ /\ e[1] = "iter"    \* ranks x, y: elements at x, y and at x from the back; difference and the six comparisons
     /\ LET x == e[2]
            y == e[3]
            A == Subs(st)
            Rank(t) == Cardinality({u \in A : LexLt(u, t)})
        IN Holds(/\ e[4] \in A /\ Rank(e[4]) = x /\ e[5] \in A /\ Rank(e[5]) = y /\ e[6] \in A /\ Rank(e[6]) = Cardinality(A) - 1 - x
                 /\ e[7] = x - y /\ e[8] = <<x = y, x # y, x < y, x <= y, x > y, x >= y>>)
     /\ UNCHANGED st
  \/ /\ e[1] = "rank"    \* t, size, contains, <, <=, >, >=, found at (size if absent), min >=, min >, max <, max <= (each <<found, value>>)
     /\ Holds(LET t == e[2]  S == Subs(st)  lt == RankLt(t)  le == lt + (IF t \in S THEN 1 ELSE 0)
                  Opt(x, ok, v) == x[1] = ok /\ (ok => x[2] \in S /\ RankLt(x[2]) = v) IN
        /\ e[3] = Cardinality(S) /\ e[4] = (t \in S) /\ e[5] = lt /\ e[6] = le /\ e[7] = e[3] - le /\ e[8] = e[3] - lt
        /\ e[9] = (IF t \in S THEN lt ELSE e[3])
        /\ Opt(e[10], lt < e[3], lt) /\ Opt(e[11], le < e[3], le) /\ Opt(e[12], lt > 0, lt - 1) /\ Opt(e[13], le > 0, le - 1))
     /\ UNCHANGED st
  \/ /\ e[1] = "crange" /\ Holds(e[4] = Cardinality({u \in Subs(st) : ~LexLt(u, e[2]) /\ LexLt(u, e[3])})) /\ UNCHANGED st
\* ---------------------------------------------------------------- an editable string with hashes; st = [a, b] two strings
EdStep(e) ==
  \/ e[1] = "set" /\ st' = [st EXCEPT ![e[2]] = [@ EXCEPT ![e[3] + 1] = e[4]]]
  \/ e[1] = "ins" /\ st' = [st EXCEPT ![e[2]] = InsSeq(@, e[3], e[4])]
  \/ e[1] = "del" /\ st' = [st EXCEPT ![e[2]] = DelSeq(@, e[3])]
  \/ /\ e[1] = "eq" /\ Holds(\A i \in DOMAIN e[2] : LET q == e[2][i] IN q[7] = (Sl(st[q[1]], q[2], q[3]) = Sl(st[q[4]], q[5], q[6]))) /\ UNCHANGED st
=============================================================================
