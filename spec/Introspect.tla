------------------------------ MODULE Introspect -------------------------------
(* What an engine says it can generate (rebulk.introspector), and declared    *)
(* keys nothing can generate (Rebulk.check_keys).                             *)
(*                                                                            *)
(* Patterns and rules carry  props : declared properties, [n, v] with v the   *)
(* values.  A description is a sequence of [n, v], one per name, without      *)
(* duplicate values; NoValue stands for "any value".                          *)
EXTENDS Engine

NoValue == <<"#NoneType:None">>
Equal(a, b) == a = b
Add(q, n, vs) ==
    LET I == {j \in 1..Len(q) : q[j].n = n}
    IN IF I = {} THEN Append(q, [n |-> n, v |-> Union(<<>>, vs, Equal)])
       ELSE [q EXCEPT ![SetMin(I)].v = Union(@, vs, Equal)]
AddAll(q, d) == LET f[k \in 0..Len(d)] == IF k = 0 THEN q ELSE Add(f[k - 1], d[k].n, d[k].v) IN f[Len(d)]

\* a literal value given for a match stands for whatever it would hold
Told(p, q, n, child, vs) == LET lit == Chosen(p.va, n, child, <<>>)
                            IN Add(q, n, IF lit = <<>> THEN vs ELSE <<lit>>)
Open(p) == ~p.priv /\ ~p.mark

RECURSIVE Describe(_)
Describe(p) ==
    LET own(q) == IF p.name = "" \/ p.name \in RangeOf(p.pnames) THEN q ELSE Told(p, q, p.name, FALSE, <<NoValue>>)
        given == SelectSeq(p.va, LAMBDA x : x.k \notin {"*", "__parent__", "__children__"} /\ x.v # <<>>)
        told == AddAll(<<>>, [k \in 1..Len(given) |-> [n |-> given[k].k, v |-> <<given[k].v>>]])
        groups == IF p.pchildren THEN <<>> ELSE Keep(Flat(p.gn), LAMBDA n : n # "" /\ n \notin RangeOf(p.pnames))
        g[k \in 0..Len(groups)] == IF k = 0 THEN own(told) ELSE Told(p, g[k - 1], groups[k], TRUE, <<NoValue>>)
    IN IF p.props # <<>> THEN AddAll(<<>>, p.props)
       ELSE CASE p.kind = "string" -> Told(p, told, p.name, FALSE, p.srcs)
              [] p.kind = "re"     -> g[Len(groups)]
              [] p.kind = "func"   -> own(told)
              [] OTHER ->
                 LET parts == IF p.pchildren THEN <<>> ELSE Keep(p.parts, LAMBDA x : ~x.hid /\ Open(x.p))
                     found == Flat([j \in 1..Len(parts) |-> Describe(parts[j].p)])
                     seen == Keep(found, LAMBDA x : x.n # "" /\ x.n \notin RangeOf(p.pnames))
                     h[k \in 0..Len(seen)] == IF k = 0 THEN own(told) ELSE Told(p, h[k - 1], seen[k].n, TRUE, seen[k].v)
                 IN h[Len(seen)]

\* engine i: descriptions of its patterns and of its rules, and all of them together
Introspected(E, P, R, i, on) ==
    LET ps == Keep(EffPatterns(E, i, on), LAMBDA k : Open(P[k]))
        rs == EffRules(E, R, i, on)
        pats == [k \in 1..Len(ps) |-> Describe(P[ps[k]])]
        rules == [k \in 1..Len(rs) |-> AddAll(<<>>, R[rs[k]].props)]
    IN [pats |-> pats, rules |-> rules, all |-> AddAll(<<>>, Flat(pats) \o Flat(rules))]
NamesOf(d) == {d[k].n : k \in 1..Len(d)}

\* ---- what may be emitted: the promise of a description ----
\* names invented by user code, or public members of private chains and markers, are out of reach
RECURSIVE Foreseeable(_)
Foreseeable(p) ==
    /\ p.props = <<>> /\ p.pre \in {"", "keep", "drop"} /\ p.post \in {"", "keep", "drop"}
    /\ \A o \in 1..Len(p.rets) : \A i \in 1..Len(p.rets[o]) : \A k \in 1..Len(p.rets[o][i]) :
           \A j \in 1..Len(p.rets[o][i][k].o) : p.rets[o][i][k].o[j].k \notin {"name", "private", "marker"}
    /\ p.kind = "chain" => (~p.priv /\ ~p.mark /\ \A j \in 1..Len(p.parts) : Foreseeable(p.parts[j].p))

\* ---- declared keys ----
RECURSIVE Producible(_)
Producible(p) == {p.props[k].n : k \in 1..Len(p.props)} \cup ({p.name} \ {""})
                 \cup (IF p.kind = "re" THEN RangeOf(Flat(p.gn)) \ {""} ELSE {})
                 \cup (IF p.kind = "chain" THEN UNION {Producible(p.parts[j].p) : j \in 1..Len(p.parts)} ELSE {})
Idle(E, P, i, allowed) ==
    LET es == {i} \cup RangeOf(E[i].kids)
        keys == {n \in UNION {{E[j].keys[k].n : k \in 1..Len(E[j].keys)} : j \in es} : TRUE}
        made == UNION {UNION {Producible(P[k]) : k \in RangeOf(E[j].pats)} : j \in es}
    IN keys \ (made \cup RangeOf(allowed))
=============================================================================
