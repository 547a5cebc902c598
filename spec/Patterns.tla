-------------------------------- MODULE Patterns --------------------------------
(* What a pattern finds in a text and what it emits (rebulk.pattern).         *)
(*                                                                            *)
(* A pattern p:                                                               *)
(*   kind  : "string" | "re" | "func" | "chain" (module Chain)                *)
(*   srcs  : the strings of a string pattern, as characters;  ic: ignore case *)
(*   occ   : what the regex engine reports (environment), per offset of the   *)
(*           text still to be read, per expression: a sequence of             *)
(*           [s, e, g] with g the captured spans of each group                *)
(*   gn    : names of the groups of each expression ("" when unnamed)         *)
(*   rets  : what a function describes, per offset: sequence of [s, e, o]     *)
(*   name tags priv mark : carried by the matches                             *)
(*   children every pparent pchildren pnames inames fall vall : emission      *)
(*   fm va vd : formatters, values, validators: sequences of [k, v], k a      *)
(*           match name, "__parent__", "__children__" or "*"                  *)
(*   pre post pp : match processors and post processor (symbolic)             *)
(*                                                                            *)
(* A match: [s, e, n, t, priv, mark, lit, fm, kids, ix, rs, re] over the text *)
(* seen (rs, re: bounds of its text, NONE: its span)                          *)
EXTENDS Py

\* ------------------------------------------------------------------ letters --
\* lower case of the characters used; foreign letters are spelled out
Low(c) == CASE c = "A" -> "a" [] c = "B" -> "b" [] c = "C" -> "c" [] c = "E'" -> "e'" [] c = "SIGMA" -> "sigma"
            [] OTHER -> c                         \* "I." (dotted capital I) has no one-letter lower case
LowSeq(s) == [i \in 1..Len(s) |-> Low(s[i])]

At(X, sub, i) == i + Len(sub) <= Len(X) /\ Cut(X, i, i + Len(sub)) = sub
\* leftmost non-overlapping occurrences of a non-empty string
FindAll(X, sub) ==
    LET n == Len(X)
        \* last end and starts found so far, scanning positions 0..n-1
        f[k \in 0..n] ==
            IF k = 0 THEN [end |-> 0, q |-> <<>>]
            ELSE LET p == f[k - 1] IN
                 IF k - 1 >= p.end /\ At(X, sub, k - 1) THEN [end |-> k - 1 + Len(sub), q |-> Append(p.q, k - 1)] ELSE p
    IN IF sub = <<>> THEN <<>> ELSE f[n].q
Occurrences(X, sub, ic) == IF ic THEN FindAll(LowSeq(X), LowSeq(sub)) ELSE FindAll(X, sub)

\* abbreviations: each replaces every (leftmost, non-overlapping) occurrence, one abbreviation after the other
RECURSIVE Join(_, _, _, _, _)
Join(X, starts, len, repl, from) ==
    IF starts = <<>> THEN Cut(X, from, Len(X))
    ELSE Cut(X, from, Head(starts)) \o repl \o Join(X, Tail(starts), len, repl, Head(starts) + len)
Replace(X, key, repl) == Join(X, FindAll(X, key), Len(key), repl, 0)
Abbreviated(X, abbr) ==
    LET f[k \in 0..Len(abbr)] == IF k = 0 THEN X ELSE Replace(f[k - 1], abbr[k].k, abbr[k].v)
    IN f[Len(abbr)]

\* ------------------------------------------------------------ configuration --
HasKey(map, k) == \E i \in 1..Len(map) : map[i].k = k
ValueOf(map, k) == map[CHOOSE i \in 1..Len(map) : map[i].k = k].v
Keys(n, child) == (IF n = "" THEN <<>> ELSE <<n>>) \o <<IF child THEN "__children__" ELSE "__parent__", "*">>
\* the first key configured decides
Chosen(map, n, child, default) ==
    LET ks == Keys(n, child)
        I == {i \in 1..Len(ks) : HasKey(map, ks[i])}
    IN IF I = {} THEN default ELSE ValueOf(map, ks[SetMin(I)])

WithParent(p) == ~p.children \/ p.every
WithChildren(p) == p.children \/ p.every
Asked(p, child) == IF child THEN WithChildren(p) ELSE WithParent(p)

\* ------------------------------------------------------------------ matches --
\* where the text of a match lies: rs, re when set apart from its span
From(m) == IF m.rs = NONE THEN m.s ELSE m.rs
Upto(m) == IF m.re = NONE THEN m.e ELSE m.re
MRaw(X, m) == Cut(X, MinOf(From(m), Len(X)), MinOf(Upto(m), Len(X)))
MVal(X, m) == IF m.lit # <<>> THEN m.lit ELSE m.fm \o MRaw(X, m)
Filled(m) == m.e > m.s

Holds(X, m, chk) ==
    CASE chk.k = "yes"    -> TRUE
      [] chk.k = "no"     -> FALSE
      [] chk.k = "rawno"  -> \A c \in RangeOf(chk.a) : c \notin RangeOf(MRaw(X, m))
      [] chk.k = "valno"  -> \A c \in RangeOf(chk.a) : c \notin RangeOf(MVal(X, m))
      [] chk.k = "short"  -> m.e - m.s < Len(chk.a)
      [] chk.k = "long"   -> m.e - m.s > Len(chk.a)
      [] chk.k = "before" -> m.s = 0 \/ X[m.s] \in RangeOf(chk.a)
      [] chk.k = "after"  -> m.e >= Len(X) \/ X[m.e + 1] \in RangeOf(chk.a)
      [] chk.k = "around" -> (m.s = 0 \/ X[m.s] \in RangeOf(chk.a)) /\ (m.e >= Len(X) \/ X[m.e + 1] \in RangeOf(chk.a))
      \* validators of a chain look at its members
      [] chk.k = "kids"   -> Len(m.kids) <= Len(chk.a)
      [] OTHER            -> FALSE
Valid(X, m, chks) == \A i \in 1..Len(chks) : Holds(X, m, chks[i])

\* privacy, value and formatter of one match of the tree
Dress(p, m, child) ==
    LET lit == Chosen(p.va, m.n, child, <<>>)
    IN [m EXCEPT !.priv = @ \/ (m.n # "" /\ m.n \in RangeOf(p.pnames)) \/ (~child /\ p.pparent) \/ (child /\ p.pchildren),
                 !.lit = IF lit # <<>> THEN lit ELSE @,
                 !.fm = IF Asked(p, child) \/ p.fall THEN Chosen(p.fm, m.n, child, <<>>) ELSE @]
Accepts(p, X, m, child) == (Asked(p, child) \/ p.vall) => Valid(X, m, Chosen(p.vd, m.n, child, <<>>))

\* ------------------------------------------------------------------- search --
Blank(p, s, e) == [s |-> s, e |-> e, n |-> p.name, t |-> p.tags, priv |-> p.priv, mark |-> p.mark, lit |-> <<>>, fm |-> <<>>,
                   kids |-> <<>>, ix |-> 0, rs |-> NONE, re |-> NONE]

ReTree(p, o, names) ==
    LET kid(i, sp) == [Blank(p, sp[1], sp[2]) EXCEPT !.n = IF names[i] = "" THEN p.name ELSE names[i]]
        some(i) == Keep([j \in 1..Len(o.g[i]) |-> kid(i, o.g[i][j])], Filled)
    IN [Blank(p, o.s, o.e) EXCEPT !.kids = Flat([i \in 1..Len(o.g) |-> some(i)])]

\* options a function gives explicitly
RECURSIVE Override(_, _)
Override(m, o) ==
    IF o = <<>> THEN m
    ELSE LET x == Head(o)
             m1 == CASE x.k = "name"    -> [m EXCEPT !.n = x.v[1]]
                     [] x.k = "tags"    -> [m EXCEPT !.t = x.v]
                     [] x.k = "private" -> [m EXCEPT !.priv = x.v[1] = "1"]
                     [] x.k = "marker"  -> [m EXCEPT !.mark = x.v[1] = "1"]
                     [] x.k = "value"   -> [m EXCEPT !.lit = x.v]
                     [] OTHER           -> m
         IN Override(m1, Tail(o))

\* occurrences of sub-pattern i of p in X, the text left after offset off
Raw(p, X, off, i) ==
    LET all ==
        CASE p.kind = "string" -> LET q == Occurrences(X, p.srcs[i], p.ic)
                                  IN [k \in 1..Len(q) |-> Blank(p, q[k], q[k] + Len(p.srcs[i]))]
          [] p.kind = "re"     -> LET q == p.occ[off + 1][i] IN [k \in 1..Len(q) |-> ReTree(p, q[k], p.gn[i])]
          [] p.kind = "func"   -> LET q == p.rets[off + 1][i]
                                  IN [k \in 1..Len(q) |-> Override(Blank(p, q[k].s, q[k].e), q[k].o)]
          [] OTHER             -> <<>>
    IN Keep(all, Filled)
Subs(p) == CASE p.kind = "string" -> Len(p.srcs) [] p.kind = "re" -> Len(p.gn) [] OTHER -> Len(p.rets[1])

\* ----------------------------------------------------------------- emission --
\* symbolic processors: "" none, "keep" answers nothing, "drop" answers False,
\* "trim" answers a new match without its last character, "edit" renames in place,
\* "less" and "later" take the last or first character out of its span, in place, its text staying
NewMatch(m, s, e, n) == [m EXCEPT !.s = s, !.e = e, !.n = n, !.t = <<>>, !.priv = FALSE, !.mark = FALSE, !.lit = <<>>,
                                  !.fm = <<>>, !.kids = <<>>, !.rs = NONE, !.re = NONE]
Processor(k, m) == CASE k = "drop" -> [ok |-> FALSE, m |-> m]
                     [] k = "trim" -> [ok |-> m.e - 1 > m.s, m |-> NewMatch(m, m.s, m.e - 1, "q")]
                     [] k = "edit" -> [ok |-> TRUE, m |-> [m EXCEPT !.n = "q"]]
                     [] k = "less" /\ m.e - m.s > 1 -> [ok |-> TRUE, m |-> [m EXCEPT !.e = @ - 1, !.re = Upto(m)]]
                     [] k = "later" /\ m.e - m.s > 1 -> [ok |-> TRUE, m |-> [m EXCEPT !.s = @ + 1, !.rs = From(m)]]
                     [] OTHER      -> [ok |-> TRUE, m |-> m]

Nothing == [ok |-> FALSE, m |-> <<>>, out |-> <<>>]
\* the members of an occurrence that are emitted
Emitted(p, m) ==
    (IF (WithParent(p) \/ p.pparent) /\ m.n \notin RangeOf(p.inames) THEN <<[w |-> 0, m |-> m]>> ELSE <<>>)
    \o (IF WithChildren(p) \/ p.pchildren
        THEN LET q == SelectSeq([j \in 1..Len(m.kids) |-> j], LAMBDA j : m.kids[j].n \notin RangeOf(p.inames))
             IN [j \in 1..Len(q) |-> [w |-> q[j], m |-> m]]
        ELSE <<>>)

\* one occurrence: dressed, validated as a whole, processed
Settled(p, X, m0, ix) ==
    LET a == Processor(p.pre, m0)
        m1 == Dress(p, [a.m EXCEPT !.ix = ix], FALSE)
        kids == [j \in 1..Len(m1.kids) |-> Dress(p, [m1.kids[j] EXCEPT !.ix = ix], TRUE)]
        m2 == [m1 EXCEPT !.kids = kids]
        good == a.ok /\ Accepts(p, X, m1, FALSE) /\ \A j \in 1..Len(kids) : Accepts(p, X, kids[j], TRUE)
        b == Processor(p.post, m2)
    IN IF good /\ b.ok THEN [ok |-> TRUE, m |-> b.m, out |-> Emitted(p, b.m)] ELSE [ok |-> FALSE, m |-> m2, out |-> <<>>]

PostProcess(k, q) == CASE k = "rev" -> Rev(q) [] k = "tail" -> (IF q = <<>> THEN q ELSE Tail(q)) [] k = "none" -> <<>>
                       [] OTHER -> q

\* everything emitted over X, in order: members are [w, m]: the w-th child of
\* occurrence m, or (w = 0) the occurrence itself
Found(p, X, off) ==
    LET per(i) == LET raw == Raw(p, X, off, i) IN Flat([k \in 1..Len(raw) |-> Settled(p, X, raw[k], k - 1).out])
    IN PostProcess(p.pp, Flat([i \in 1..Subs(p) |-> per(i)]))

Member(x) == IF x.w = 0 THEN x.m ELSE x.m.kids[x.w]
=============================================================================
