------------------------------- MODULE MatchOps -------------------------------
(* A single match: equality, hashing, ordering, cropping and splitting.       *)
EXTENDS Store

\* ------------------------------------------------------------ comparisons ----
B(x) == IF x THEN 1 ELSE 0
\* ==, !=, reversed ==, reversed !=, <, <=, >, >=
Compare(O, X, a, b) ==
    LET e == EqM(O, X, a, b)
        lt == SpanBefore(O, a, b)
        gt == SpanBefore(O, b, a)
    IN <<B(e), B(~e), B(e), B(~e), B(lt), B(~gt), B(gt), B(~lt)>>

\* a set or a dict of matches: insertion keeps the first of equal matches
SetInsert(O, X, S, a) == IF \E i \in 1..Len(S) : EqM(O, X, S[i], a) THEN S ELSE Append(S, a)

\* --------------------------------------------------------------- cropping ----
\* positions of [s, e) left by the crops, as maximal stretches in order
Runs(U, s, e) ==
    LET begins == SeqOfSet({p \in U : (p - 1) \notin U})
        stop(p) == SetMin({q \in (p + 1)..e : q \notin U})
    IN [k \in 1..Len(begins) |-> <<begins[k], stop(begins[k])>>]

Left(s, e, crops) == {p \in s..(e - 1) : \A i \in 1..Len(crops) : ~(crops[i][1] <= p /\ p < crops[i][2])}
Cropped(s, e, crops) == Runs(Left(s, e, crops), s, e)

\* the design: every crop in turn shortens, removes or splits the pieces so far
CropPiece(p, c) ==
    IF c[1] <= p[1] /\ c[2] >= p[2] THEN <<>>
    ELSE IF c[2] <= p[1] \/ c[1] >= p[2] THEN <<p>>
    ELSE Keep(<< <<p[1], MaxOf(c[1], p[1])>>, <<MinOf(c[2], p[2]), p[2]>> >>, LAMBDA q : q[1] < q[2])
RECURSIVE CropFold(_, _)
CropFold(pieces, crops) ==
    IF crops = <<>> THEN pieces
    ELSE CropFold(Flat([k \in 1..Len(pieces) |-> CropPiece(pieces[k], Head(crops))]), Tail(crops))

\* -------------------------------------------------------------- splitting ----
Splitted(X, s, e, seps) == Runs({p \in s..(e - 1) : X[p + 1] \notin seps}, s, e)

\* ----------------------------------------------------------------- family ----
\* parents point up (O.par), children are listed (kids[m], a sequence): the two
\* are independent for the caller, who keeps them consistent or not
RECURSIVE Top(_, _)
Top(O, m) == IF O[m].par = 0 THEN m ELSE Top(O, O[m].par)

\* names of the matches at the bottom of the tree
RECURSIVE LeafNames(_, _, _)
LeafNames(O, kids, m) == IF kids[m] = <<>> THEN {O[m].n}
                         ELSE UNION {LeafNames(O, kids, kids[m][j]) : j \in 1..Len(kids[m])}
AnyNamed(O, kids, m, names) == \E n \in RangeOf(names) : n \in LeafNames(O, kids, m)
AnyTagged(O, m, tags) == \E t \in RangeOf(tags) : t \in RangeOf(O[m].t)

\* the text a match stands for may be told apart from its span
RawSpan(O, raw, m) == <<IF raw[m][1] = NONE THEN O[m].s ELSE raw[m][1], IF raw[m][2] = NONE THEN O[m].e ELSE raw[m][2]>>
RawText(O, X, raw, m) == LET w == RawSpan(O, raw, m)
                             b == MinOf(w[2], Len(X))
                         IN Cut(X, MinOf(w[1], b), b)
RawVal(O, X, raw, m) == IF O[m].lit # <<>> THEN O[m].lit
                        ELSE IF X = <<>> THEN (IF O[m].fm = <<>> THEN NoVal ELSE Append(O[m].fm, "N"))
                        ELSE O[m].fm \o RawText(O, X, raw, m)

\* ------------------------------------------------- validators, formatters ----
Before(O, X, m, cs) == O[m].s <= 0 \/ X[O[m].s] \in RangeOf(cs)
After(O, X, m, cs) == O[m].e >= Len(X) \/ X[O[m].e + 1] \in RangeOf(cs)
Border(O, X, m, k, cs) ==
    CASE k = "before" -> Before(O, X, m, cs)
      [] k = "after"  -> After(O, X, m, cs)
      [] k = "around" -> Before(O, X, m, cs) /\ After(O, X, m, cs)
      [] k = "yes"    -> TRUE
      [] OTHER        -> FALSE
\* one after the other, none asked once one has refused: <<accepted, how many were asked>>
AskAll(O, X, m, vs) ==
    LET bad == {i \in 1..Len(vs) : ~Border(O, X, m, vs[i].k, vs[i].c)}
    IN IF bad = {} THEN <<1, Len(vs)>> ELSE <<0, SetMin(bad)>>
=============================================================================
