-------------------------------- MODULE StoreMC --------------------------------
(* What the lookups of module Store mean, checked by TLC on every collection  *)
(* of at most MaxLen matches over a text of N characters: the operators the   *)
(* real code is compared with have the properties stated for the users.       *)
EXTENDS Store, TLC

CONSTANTS N, MaxLen

Spans == {sp \in (0..N) \X (0..N) : sp[1] < sp[2]}
SpanSeq == LET f[S \in SUBSET Spans] ==
                   IF S = {} THEN <<>>
                   ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] < z[1] \/ (y[1] = z[1] /\ y[2] <= z[2])
                        IN <<x>> \o f[S \ {x}]
           IN f[Spans]
NS == Len(SpanSeq)
\* two copies of every span: plain, and a distinct equal one
Obj(i) == [s |-> SpanSeq[i][1], e |-> SpanSeq[i][2], n |-> "", t |-> <<>>, lit |-> <<>>, fm |-> <<>>, par |-> 0,
           mark |-> FALSE, priv |-> FALSE]
O == [i \in 1..(2 * NS) |-> Obj(IF i <= NS THEN i ELSE i - NS)]
Texts == {SubSeq(x, 1, N) : x \in {<<"a", "-", "a", "-", "a">>, <<"-", "-", "a", "a", "-">>, <<"a", "-", "-", "a", "a">>}}
X0 == CHOOSE x \in Texts : TRUE

VARIABLE C
Init == C = <<>>
Next == /\ Len(C) < MaxLen
        /\ \E m \in 1..(IF Len(C) = 0 THEN NS ELSE 2 * NS) : (\A i \in 1..Len(C) : C[i] # m) /\ C' = Append(C, m)
Spec == Init /\ [][Next]_C

Covered(p) == \E i \in 1..Len(C) : Covers(O, C[i], p)
HolesOf(x, a, b, seps) ==
    Holes(O, x, C, [a |-> <<a, b, 0>>, m |-> <<>>, cs |-> seps, hp |-> FALSE, ix |-> NONE, ss |-> <<>>]).v

HoleLaws == \A x \in Texts, a \in 0..N, b \in 0..N, seps \in {<<>>, <<"-">>} :
    LET h == HolesOf(x, a, b, seps)
    IN /\ \A k \in 1..Len(h) : a <= h[k][1] /\ h[k][1] < h[k][2] /\ h[k][2] <= b
       /\ \A k \in 1..(Len(h) - 1) : h[k][2] <= h[k + 1][1]
       /\ \A k \in 1..Len(h), p \in 0..N : h[k][1] <= p /\ p < h[k][2] => ~Covered(p)
       /\ (seps = <<>>) => /\ \A p \in a..(b - 1) : ~Covered(p) => \E k \in 1..Len(h) : h[k][1] <= p /\ p < h[k][2]
                           /\ \A k \in 1..(Len(h) - 1) : h[k][2] < h[k + 1][1]
       /\ (seps # <<>>) => \* only separators are lost, and a hole is never continued over one
              /\ \A p \in a..(b - 1) : ~Covered(p) /\ (\A k \in 1..Len(h) : ~(h[k][1] <= p /\ p < h[k][2])) => x[p + 1] = "-"
              /\ \A k \in 1..Len(h), p \in 0..N : h[k][1] < p /\ p < h[k][2] => x[p + 1] # "-"

SpanLaws ==
    /\ LET r == InRange(O, X0, C, 0, NONE) IN Len(r) = Len(C) /\ RangeOf(r) = RangeOf(C)
    /\ \A a, b \in 0..N : LET r == InRange(O, X0, C, a, b)
          IN /\ \A i \in 1..(Len(r) - 1) : ~SpanBefore(O, r[i + 1], r[i])
             /\ \A i \in 1..Len(C) : (C[i] \in RangeOf(r)) <=> (O[C[i]].s < b /\ O[C[i]].e > a)
    /\ \A i \in 1..Len(C) :
          LET m == C[i]  p == Previous(O, C, m)  n == NextOf(O, C, m)  c == Conflicting(O, X0, C, m)
          IN /\ \A k \in 1..Len(p) : O[p[k]].e <= O[m].s
             /\ \A k \in 1..Len(C) : O[C[k]].e <= O[m].s => (p # <<>> /\ O[p[1]].e >= O[C[k]].e)
             /\ \A k \in 1..Len(n) : O[n[k]].s > O[m].s
             /\ \A k \in 1..Len(C) : O[C[k]].s > O[m].s => (n # <<>> /\ O[n[1]].s <= O[C[k]].s)
             /\ c.ok
             /\ \A k \in 1..Len(C) : (O[C[k]].s < O[m].e /\ O[m].s < O[C[k]].e /\ ~EqM(O, X0, C[k], m))
                                     => \E j \in 1..Len(c.v) : EqM(O, X0, c.v[j], C[k])
             /\ \A j \in 1..Len(c.v) : O[c.v[j]].s < O[m].e /\ O[m].s < O[c.v[j]].e

ChainLaws == \A x \in Texts, p \in 0..N :
    LET All(m) == TRUE
        f == ChainAfter(O, x, C, p, NONE, {"-"}, All)
        b == ChainBefore(O, x, C, p, 0, {"-"}, All)
    IN /\ \A k \in 1..Len(f) : O[f[k]].e > p
       /\ \A k \in 1..Len(b) : O[b[k]].s < p
       \* everything met is reached over separators and matches only
       /\ \A k \in 1..Len(f), q \in p..(N - 1) : q < O[f[k]].s => (Covered(q) \/ x[q + 1] = "-")
       /\ \A k \in 1..Len(b), q \in 0..(p - 1) : q >= O[b[k]].e => (Covered(q) \/ x[q + 1] = "-")
=============================================================================
