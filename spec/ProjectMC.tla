-------------------------------- MODULE ProjectMC --------------------------------
(* Laws of module Project, on every collection within the constants.          *)
EXTENDS Project, TLC

CONSTANTS N                \* matches in the collection

V(t, q) == [t |-> t, q |-> q, items |-> <<>>]
L(items) == [t |-> "list", q |-> "", items |-> items]
Vals == {V("int", "1"), V("bool", "1"), V("str", "a"), L(<<V("str", "a")>>), L(<<>>)}
Names == {"", "x"}
Spans == {<<0, 1>>, <<0, 2>>, <<1, 2>>}

VARIABLES C, step
vars == <<C, step>>
M(sp, n, v) == [s |-> sp[1], e |-> sp[2], n |-> n, v |-> v, priv |-> FALSE, lit |-> FALSE]
Init == C = <<>> /\ step = <<>>
\* two steps for each match, so that TLC spreads the work
Choose == /\ step = <<>> /\ Len(C) < N
          /\ \E sp \in Spans : step' = sp
          /\ UNCHANGED C
Add == /\ step # <<>>
       /\ \E n \in Names, v \in Vals : C' = Append(C, M(step, n, v))
       /\ step' = <<>>
Next == Choose \/ Add
Spec == Init /\ [][Next]_vars

Whole == step = <<>>
\* one entry per name; nothing is invented, nothing is lost
Complete == Whole =>
    \A first, enforce \in BOOLEAN :
      LET d == ToDict(C, first, enforce)
      IN /\ {d[i].n : i \in 1..Len(d)} = {C[i].n : i \in 1..Len(C)}
         /\ Len(d) = Cardinality({C[i].n : i \in 1..Len(C)})
         /\ \A i \in 1..Len(d) :
              LET vs == [j \in 1..Len(OfName(C, d[i].n)) |-> OfName(C, d[i].n)[j].v]
                  pool == UNION {{v} \cup RangeOf(v.items) : v \in RangeOf(vs)}
              IN /\ \A k \in 1..Len(d[i].x) : d[i].x[k] \in pool
                 /\ enforce => d[i].l
                 \* a list never holds twice the same, unless the value itself did
                 /\ ~first => \A v \in RangeOf(vs) : \/ \E k \in 1..Len(d[i].x) : ValEq(d[i].x[k], v)
                                                     \/ (IsList(v) /\ d[i].l)
\* the order of the collection only decides between matches of one span
Ordered == Whole =>
    LET a == AllOf(C)
    IN \A i \in 1..Len(a) : \A j, k \in 1..Len(a[i].x) : j < k => a[i].x[j].s <= a[i].x[k].s
\* the first value is first in the list; details lists as many matches at least
Firsts == Whole =>
    LET d == ToDict(C, FALSE, FALSE)
        f == ToDict(C, TRUE, FALSE)
        m == ToDictDetails(C, FALSE, TRUE)
    IN \A i \in 1..Len(d) : /\ d[i].n = f[i].n
                            /\ \A k \in 1..Len(f[i].x) : d[i].x[k] = f[i].x[k]
                            /\ m[i].l /\ \A j, k \in 1..Len(m[i].x) : j # k => ~SameMatch(m[i].x[j], m[i].x[k])
\* reading by key is reading the field of a model
KeyIsField == Whole =>
    LET f(h) == [n |-> "x", h |-> h, req |-> FALSE, init |-> TRUE]
        int == [k |-> "cls", c |-> "int", of |-> <<>>]
        dc(h) == [k |-> "dc", of |-> <<>>, fields |-> <<f(h)>>]
        one == To(C, <<>>, dc(int)).fs[1]
        all == To(C, <<>>, dc([k |-> "list", c |-> "", of |-> <<int>>])).fs[1]
    IN /\ one.x = ReadOne(C, "x") /\ all.x = Values(C, "x") /\ Values(C, "") = <<>>
       /\ (one.k = "") = (Values(C, "x") = <<>>)
\* contradiction is symmetric, and a field typed as its key never contradicts
Types == {"bool", "int", "float", "str", "date", "datetime", "Base", "Derived", "object"}
Cls(c) == [k |-> "cls", c |-> c, of |-> <<>>]
Wrap(k, h) == [k |-> k, c |-> "", of |-> <<h>>]
Contradiction ==
    \A a, b \in Types :
      /\ Contradicts(Cls(a), b) = Contradicts(Cls(b), a)
      /\ ~Contradicts(Cls(a), a) /\ ~Contradicts(Cls("object"), a)
      /\ \A k \in {"list", "opt", "ann"} : Contradicts(Wrap(k, Cls(a)), b) = Contradicts(Cls(a), b)
      /\ \A t \in Types : IsA(t, a) /\ IsA(a, b) => IsA(t, b)
ASSUME Contradiction
=============================================================================
