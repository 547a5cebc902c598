------------------------------- MODULE PatternMC -------------------------------
(* Laws of module Patterns over every small text, set of strings, match tree  *)
(* and configuration.                                                         *)
EXTENDS Patterns, TLC
CONSTANT N

Letters == {"a", "b"}
Texts == UNION {[1..k -> Letters] : k \in 0..N}
Words == UNION {[1..k -> Letters] : k \in 0..2}
Base == [kind |-> "string", name |-> "n", tags |-> <<"t">>, priv |-> FALSE, mark |-> FALSE, children |-> FALSE, every |-> FALSE,
         pparent |-> FALSE, pchildren |-> FALSE, pnames |-> <<>>, inames |-> <<>>, fall |-> FALSE, vall |-> FALSE, fm |-> <<>>,
         va |-> <<>>, vd |-> <<>>, pre |-> "", post |-> "", pp |-> "", ic |-> FALSE, srcs |-> <<>>, occ |-> <<>>, gn |-> <<>>,
         rets |-> <<>>]
Maps(v) == {<<>>, <<[k |-> "*", v |-> v]>>, <<[k |-> "__parent__", v |-> v]>>, <<[k |-> "__children__", v |-> v]>>,
            <<[k |-> "x", v |-> v]>>, <<[k |-> "n", v |-> v]>>}
Tree == <<[s |-> 0, e |-> 2, g |-> <<<<<<0, 1>>>>, <<<<1, 2>>>>>>], [s |-> 2, e |-> 3, g |-> <<<<<<2, 3>>>>, <<<<3, 3>>>>>>]>>

VARIABLES X, p

Strings == {[Base EXCEPT !.srcs = <<w>>, !.ic = c] : w \in Words, c \in BOOLEAN}
Flags == {[Base EXCEPT !.kind = "re", !.occ = <<<<Tree>>>>, !.gn = <<<<"x", "">>>>, !.children = a, !.every = b, !.pparent = c,
                       !.pchildren = d, !.vall = f, !.fall = f] :
          a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, d \in BOOLEAN, f \in BOOLEAN}
Trees(q) == {[q EXCEPT !.vd = vd, !.pnames = pn, !.inames = inm, !.va = va, !.fm = fm] :
          vd \in Maps(<<[k |-> "rawno", a |-> <<"b">>]>>), pn \in {<<>>, <<"x">>}, inm \in {<<>>, <<"x">>, <<"n">>},
          va \in Maps(<<"V">>), fm \in {<<>>, <<[k |-> "*", v |-> <<"F">>]>>}}
VARIABLE stage
Init == X = <<>> /\ p = Base /\ stage = 0
Next == \/ /\ stage = 0 /\ stage' = 1
           /\ \/ X' \in Texts /\ p' = Base
              \/ X' \in {<<"a", "b", "a">>, <<"a", "a", "b">>} /\ p' \in Flags
        \/ /\ stage = 1 /\ stage' = 2 /\ X' = X
           /\ p' \in IF p = Base THEN Strings ELSE Trees(p)
Spec == Init /\ [][Next]_<<X, p, stage>>

Q == Found(p, X, 0)
\* exactly the leftmost non-overlapping occurrences
Occur == p.kind = "string" /\ p # Base =>
    LET q == Occurrences(X, p.srcs[1], p.ic)
        w == p.srcs[1]
        hit(i) == At(X, w, i)
    IN /\ \A i \in 1..Len(q) : hit(q[i])
       /\ \A i \in 1..(Len(q) - 1) : q[i] + Len(w) <= q[i + 1]
       \* every occurrence overlaps or is one found; none starts between the end of one and the next found
       /\ (w # <<>>) => \A k \in 0..Len(X) : hit(k) => \E i \in 1..Len(q) : q[i] <= k /\ k < q[i] + Len(w)
       /\ (w = <<>>) => q = <<>>
\* ranks: which occurrences are emitted
Ids(q) == {<<q[i].m.s, q[i].m.e, q[i].w>> : i \in 1..Len(q)}
Roles == \A i \in 1..Len(Q) : /\ (Q[i].w = 0) => (WithParent(p) \/ p.pparent)
                              /\ (Q[i].w # 0) => (WithChildren(p) \/ p.pchildren)
                              /\ Member(Q[i]).n \notin RangeOf(p.inames)
\* as a whole: a valid occurrence emits every member configuration asks for, an invalid one none
Whole == p.kind = "re" =>
    \A k \in 1..Len(Tree) :
        LET mine == {i \in 1..Len(Q) : Q[i].m.s = Tree[k].s}
            kids == Cardinality({g \in 1..2 : LET sp == Tree[k].g[g][1] IN sp[2] > sp[1] /\ ~(g = 1 /\ "x" \in RangeOf(p.inames))
                                                                       /\ ~(g = 2 /\ "n" \in RangeOf(p.inames))})
            all == (IF (WithParent(p) \/ p.pparent) /\ "n" \notin RangeOf(p.inames) THEN 1 ELSE 0)
                   + (IF WithChildren(p) \/ p.pchildren THEN kids ELSE 0)
        IN Cardinality(mine) \in {0, all}
\* no member emitted by configuration carries text its validator refuses
Sound == \A i \in 1..Len(Q) : LET m == Member(Q[i]) IN Accepts(p, X, m, Q[i].w # 0)
\* literal before formatter before text
Values == \A i \in 1..Len(Q) :
    LET m == Member(Q[i])
        c == Q[i].w # 0
        v == MVal(X, m)
    IN /\ (Chosen(p.va, m.n, c, <<>>) # <<>>) => v = <<"V">>
       /\ (Chosen(p.va, m.n, c, <<>>) = <<>> /\ Chosen(p.fm, m.n, c, <<>>) = <<>>) => v = MRaw(X, m)
Privacy == \A i \in 1..Len(Q) : LET m == Member(Q[i]) IN
    m.priv <=> (m.n \in RangeOf(p.pnames) \/ (Q[i].w = 0 /\ p.pparent) \/ (Q[i].w # 0 /\ p.pchildren))
\* members keep the order of occurrences, parents before children
InOrder == \A i \in 1..(Len(Q) - 1) : Q[i].m.s < Q[i + 1].m.s \/ (Q[i].m.s = Q[i + 1].m.s /\ Q[i].w < Q[i + 1].w)
\* abbreviations: nothing of the key is left when the replacement has none of its letters
Abbrev == p.kind = "string" /\ p # Base /\ p.srcs[1] # <<>> =>
    /\ FindAll(Replace(X, p.srcs[1], <<"z">>), p.srcs[1]) = <<>>
    /\ Replace(X, p.srcs[1], p.srcs[1]) = X
=============================================================================
