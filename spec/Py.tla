--------------------------------- MODULE Py ---------------------------------
(* Small vocabulary shared by every specification of rebulk: Python lists     *)
(* (0-based indices, negative indices, slices), stable sorting, and the       *)
(* "predicate then index" selection every lookup of rebulk ends with.         *)
EXTENDS Integers, Sequences, FiniteSets

NONE == 1000000          \* Python's None where an integer is expected

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x

RangeOf(s) == {s[i] : i \in 1..Len(s)}

\* 0-based slice of a sequence  s[a:b]  with 0 <= a, b <= Len(s)
Cut(s, a, b) == IF b <= a THEN <<>> ELSE SubSeq(s, a + 1, b)

\* members of s satisfying P, in order
Keep(s, P(_)) == SelectSeq(s, P)

IndexesOf(s, P(_)) == {i \in 1..Len(s) : P(s[i])}

RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o SeqOfSet(S \ {x})

\* the elements of s at the (1-based) positions of the set I, in order
AtPositions(s, I) == LET q == SeqOfSet(I) IN [k \in 1..Len(q) |-> s[q[k]]]

Without(s, i) == Cut(s, 0, i - 1) \o Cut(s, i, Len(s))           \* drop 1-based i
InsertAt(s, i, x) == Cut(s, 0, i) \o <<x>> \o Cut(s, i, Len(s))  \* before 0-based i

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* stable insertion sort;  Before(a, b) is a strict (weak) order
Place(s, x, Before(_, _)) ==
    LET I == {i \in 1..Len(s) : Before(x, s[i])}
    IN IF I = {} THEN Append(s, x) ELSE InsertAt(s, SetMin(I) - 1, x)
StableSort(s, Before(_, _)) ==
    LET f[k \in 0..Len(s)] == IF k = 0 THEN <<>> ELSE Place(f[k - 1], s[k], Before)
    IN f[Len(s)]

\* sequence with later elements equal (under Eq) to an earlier one dropped
DedupBy(s, Eq(_, _)) ==
    LET f[k \in 0..Len(s)] ==
            IF k = 0 THEN <<>>
            ELSE LET p == f[k - 1]
                 IN IF \E i \in 1..Len(p) : Eq(p[i], s[k]) THEN p ELSE Append(p, s[k])
    IN f[Len(s)]

Dedup(s) == DedupBy(s, LAMBDA a, b : a = b)

\* -- Python subscripts ---------------------------------------------------------
IdxOK(i, n) == -n <= i /\ i < n
Idx(i, n) == IF i < 0 THEN i + n ELSE i                       \* 0-based

\* list.insert clamps
InsIdx(i, n) == IF i < 0 THEN MaxOf(0, i + n) ELSE MinOf(i, n)

SliceLo(a, n, st) == IF a = NONE THEN (IF st > 0 THEN 0 ELSE n - 1)
                     ELSE IF a < 0 THEN MaxOf(a + n, IF st > 0 THEN 0 ELSE -1)
                     ELSE MinOf(a, IF st > 0 THEN n ELSE n - 1)
SliceHi(b, n, st) == IF b = NONE THEN (IF st > 0 THEN n ELSE -1)
                     ELSE IF b < 0 THEN MaxOf(b + n, IF st > 0 THEN 0 ELSE -1)
                     ELSE MinOf(b, IF st > 0 THEN n ELSE n - 1)
RECURSIVE Steps(_, _, _)
Steps(lo, hi, st) == IF (st > 0 /\ lo >= hi) \/ (st < 0 /\ lo <= hi) THEN <<>>
                     ELSE <<lo>> \o Steps(lo + st, hi, st)
\* the 0-based indexes selected by  [a:b:st]
SliceIdx(a, b, st, n) == Steps(SliceLo(a, n, st), SliceHi(b, n, st), st)

\* -- predicate then index -------------------------------------------------------
\* hp: is there a predicate;  p: the elements it accepts;  ix: index or NONE
\* Result records:  k = "list" | "one" | "none" | "err" ...
FilterIndex(s, hp, p, ix) ==
    LET f == IF hp THEN Keep(s, LAMBDA x : x \in p) ELSE s
    IN IF ix = NONE THEN [k |-> "list", v |-> f, w |-> <<>>]
       ELSE IF IdxOK(ix, Len(f)) THEN [k |-> "one", v |-> <<f[Idx(ix, Len(f)) + 1]>>, w |-> <<>>]
       ELSE [k |-> "none", v |-> <<>>, w |-> <<>>]

Res(kk, vv) == [k |-> kk, v |-> vv, w |-> <<>>]
ERR == Res("err", <<>>)
OKAY == Res("ok", <<>>)
\* two observations agree (kinds first: values of different kinds are never compared)
Same(r, x) == r.k = x.k /\ Len(r.v) = Len(x.v) /\ r.v = x.v /\ Len(r.w) = Len(x.w) /\ r.w = x.w
=============================================================================
