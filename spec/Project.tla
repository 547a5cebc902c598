--------------------------------- MODULE Project ---------------------------------
(* Reading a collection as plain data (Matches.to_dict, [key], all, to and    *)
(* check_declared_keys).                                                      *)
(*                                                                            *)
(* A value: [t, q, items]: its type, its class under Python's ==, and, for a  *)
(* list, its items (values without items).                                    *)
(* A match: [s, e, n, v, priv, lit]: span, name ("" for none), value, whether *)
(* it is private and whether its value is a literal.                          *)
(* A collection: a sequence of matches.                                       *)
(* A declared key: [n, t]: name and type.                                     *)
(* A hint, the type written for a field: [k, c, of]:                          *)
(*   k = "cls" a plain class c;  "list" of of[1];  "opt" of[1] or None;       *)
(*   "union" of the hints of;  "ann" of[1] with an annotation;  "any";        *)
(*   "other" a container of another kind                                      *)
(* A model: [k, of, fields]: "list" of hint of[1], "dc" a dataclass, "td" a   *)
(* TypedDict, "cls" a plain class, "not" something that is no type;           *)
(* a field: [n, h, req, init]                                                 *)
EXTENDS Py

\* ------------------------------------------------------------------ values -----
ValEq(a, b) ==
    IF a.t = "list" \/ b.t = "list"
    THEN a.t = b.t /\ Len(a.items) = Len(b.items) /\ \A i \in 1..Len(a.items) : a.items[i].q = b.items[i].q
    ELSE a.q = b.q
IsList(v) == v.t = "list"
SameMatch(a, b) == a.s = b.s /\ a.e = b.e /\ a.n = b.n /\ ValEq(a.v, b.v)
Nothing(v) == v.t = "NoneType"

\* ------------------------------------------------------------------ to_dict ----
BySpan(C) == StableSort(C, LAMBDA a, b : a.s < b.s \/ (a.s = b.s /\ a.e < b.e))
NamesOf(C) == Dedup([i \in 1..Len(C) |-> C[i].n])
OfName(C, n) == Keep(C, LAMBDA m : m.n = n)

\* what one name stands for: [l, x]: a list or not, and the value (only one if not a list)
\* xs: the values of the name in order;  Items(x): those of a list value
Entry(xs, first, enforce, Eq(_, _), Listed(_), Items(_)) ==
    LET start == IF Listed(xs[1]) THEN [l |-> TRUE, x |-> Items(xs[1])]
                 ELSE [l |-> enforce, x |-> <<xs[1]>>]
        f[k \in 1..Len(xs)] ==
            IF k = 1 THEN start
            ELSE LET p == f[k - 1]
                 IN IF \E i \in 1..Len(p.x) : Eq(p.x[i], xs[k]) THEN p ELSE [l |-> TRUE, x |-> Append(p.x, xs[k])]
    IN IF first THEN start ELSE f[Len(xs)]

ToDict(C, first, enforce) ==
    LET s == BySpan(C)
        ns == NamesOf(s)
    IN [i \in 1..Len(ns) |->
          LET ms == OfName(s, ns[i])
              e == Entry([j \in 1..Len(ms) |-> ms[j].v], first, enforce, ValEq, IsList, LAMBDA v : v.items)
          IN [n |-> ns[i], l |-> e.l, x |-> e.x]]
ToDictDetails(C, first, enforce) ==
    LET s == BySpan(C)
        ns == NamesOf(s)
    IN [i \in 1..Len(ns) |->
          LET e == Entry(OfName(s, ns[i]), first, enforce, SameMatch, LAMBDA m : FALSE, LAMBDA m : <<>>)
          IN [n |-> ns[i], l |-> e.l, x |-> e.x]]
\* the lists attached to the dict
AllOf(C) == LET s == BySpan(C)
                ns == NamesOf(s)
            IN [i \in 1..Len(ns) |-> [n |-> ns[i], x |-> OfName(s, ns[i])]]
DistinctOf(C) == LET a == AllOf(C)
                 IN [i \in 1..Len(a) |-> [n |-> a[i].n, x |-> DedupBy([j \in 1..Len(a[i].x) |-> a[i].x[j].v], ValEq)]]

\* ------------------------------------------------------------------ keys -------
Values(C, n) == IF n = "" THEN <<>> ELSE LET q == OfName(C, n) IN [i \in 1..Len(q) |-> q[i].v]
ReadOne(C, n) == LET v == Values(C, n) IN Cut(v, 0, MinOf(1, Len(v)))

\* ------------------------------------------------------------------ types ------
Parents == [bool |-> {"bool", "int", "object"}, int |-> {"int", "object"}, float |-> {"float", "object"},
            str |-> {"str", "object"}, date |-> {"date", "object"}, datetime |-> {"datetime", "date", "object"},
            Base |-> {"Base", "object"}, Derived |-> {"Derived", "Base", "object"}, object |-> {"object"},
            list |-> {"list", "object"}, NoneType |-> {"NoneType", "object"}]
IsA(a, b) == b \in Parents[a]
Related(a, b) == IsA(a, b) \/ IsA(b, a)

\* the type of one value of a field, <<>> if it cannot be told
RECURSIVE Element(_)
Element(h) ==
    CASE h.k = "cls"              -> <<h.c>>
      [] h.k \in {"list", "opt", "ann"} -> Element(h.of[1])
      [] OTHER                    -> <<>>
RECURSIVE Bare(_)
Bare(h) == IF h.k = "ann" THEN Bare(h.of[1]) ELSE h
Contradicts(h, t) == LET e == Element(h) IN e # <<>> /\ ~Related(e[1], t)

KeyOf(keys, n) == LET I == {i \in 1..Len(keys) : keys[i].n = n} IN IF I = {} THEN <<>> ELSE <<keys[SetMin(I)].t>>

\* ------------------------------------------------------------------ to ---------
\* what a field gets: "list", "one", or "" for nothing (its default, or absent)
Filled(C, f) ==
    LET v == Values(C, f.n)
    IN CASE Bare(f.h).k = "list" -> [n |-> f.n, k |-> "list", x |-> v]
         [] v # <<>>             -> [n |-> f.n, k |-> "one", x |-> <<v[1]>>]
         [] OTHER                -> [n |-> f.n, k |-> "", x |-> <<>>]
Err(kk) == [r |-> kk, x |-> <<>>, fs |-> <<>>]
To(C, keys, m) ==
    CASE m.k = "list" -> IF m.of[1].k \in {"dc", "td"} THEN Err("TypeError")
                         ELSE [r |-> "list", x |-> [i \in 1..Len(C) |-> C[i].v], fs |-> <<>>]
      [] m.k = "cls"  -> IF C = <<>> THEN Err("LookupError") ELSE [r |-> "one", x |-> <<C[1].v>>, fs |-> <<>>]
      [] m.k = "not"  -> Err("TypeError")
      [] OTHER ->
            LET fs == m.fields
                got == [i \in 1..Len(fs) |-> IF fs[i].init THEN Filled(C, fs[i]) ELSE [n |-> fs[i].n, k |-> "", x |-> <<>>]]
                clash == \E i \in 1..Len(fs) : fs[i].init /\ KeyOf(keys, fs[i].n) # <<>> /\ Contradicts(fs[i].h, KeyOf(keys, fs[i].n)[1])
                lacks == m.k = "dc" /\ \E i \in 1..Len(fs) : fs[i].init /\ fs[i].req /\ got[i].k = ""
            IN IF clash \/ lacks THEN Err("TypeError")
               ELSE [r |-> m.k, x |-> <<>>, fs |-> IF m.k = "td" THEN Keep(got, LAMBDA g : g.k # "") ELSE got]

\* ------------------------------------------------------------- declared keys ----
Breaks(m, keys) == /\ m.n # "" /\ KeyOf(keys, m.n) # <<>> /\ ~m.priv /\ ~m.lit
                   /\ ~Nothing(m.v) /\ ~IsA(m.v.t, KeyOf(keys, m.n)[1])
Honoured(C, keys) == \A i \in 1..Len(C) : ~Breaks(C[i], keys)
=============================================================================
