-------------------------------- MODULE Store --------------------------------
(* The collection of matches (rebulk.match.Matches / Markers).                *)
(*                                                                            *)
(* Abstract state: one sequence C of object ids.  Everything a lookup answers *)
(* is a function of C alone - the lazily built indexes of the implementation  *)
(* are invisible (module StoreIdx models them and shows they can be).         *)
(*                                                                            *)
(* O   : the object table, a sequence of records                              *)
(*         [s, e, n, t, lit, fm, par, mark, priv]  (n = "" : no name; t: tags;*)
(*         lit : literal value as characters, <<>> if none; fm : characters   *)
(*         the formatter puts in front, <<>> : no formatter; par : 0 = none)  *)
(* X   : the input string as a sequence of characters, <<>> if none           *)
EXTENDS Py

NoVal == <<"#None">>                        \* Python None as a match value

\* a match may be told where its text lies, apart from its span (rs, re; NONE: where its span lies)
TextFrom(o) == IF "rs" \notin DOMAIN o THEN o.s ELSE IF o.rs = NONE THEN o.s ELSE o.rs
TextUpto(o) == IF "re" \notin DOMAIN o THEN o.e ELSE IF o.re = NONE THEN o.e ELSE o.re
Val(O, X, i) == IF O[i].lit # <<>> THEN O[i].lit
                ELSE IF X = <<>> THEN (IF O[i].fm = <<>> THEN NoVal ELSE Append(O[i].fm, "N"))
                ELSE O[i].fm \o Cut(X, MinOf(TextFrom(O[i]), Len(X)), MinOf(TextUpto(O[i]), Len(X)))

Span(O, i) == <<O[i].s, O[i].e>>
SpanBefore(O, a, b) == O[a].s < O[b].s \/ (O[a].s = O[b].s /\ O[a].e < O[b].e)

\* equality of matches: span, value, name and parent - nothing else
RECURSIVE EqM(_, _, _, _)
EqM(O, X, a, b) ==
    \/ a = b
    \/ /\ O[a].s = O[b].s /\ O[a].e = O[b].e
       /\ O[a].n = O[b].n
       /\ Val(O, X, a) = Val(O, X, b)
       /\ \/ O[a].par = 0 /\ O[b].par = 0
          \/ O[a].par # 0 /\ O[b].par # 0 /\ EqM(O, X, O[a].par, O[b].par)

FirstEq(O, X, C, m) == LET I == {i \in 1..Len(C) : EqM(O, X, C[i], m)}
                       IN IF I = {} THEN 0 ELSE SetMin(I)       \* 1-based, 0 = absent

\* ------------------------------------------------------------------ edits ----
\* Each edit yields [C |-> new collection, r |-> result].  An edit that raises
\* because of a bad index or an absent match changes nothing.
Done(C, r) == [C |-> C, r |-> r]

DoInsert(C, i, m) == Done(InsertAt(C, InsIdx(i, Len(C)), m), OKAY)
DoSetItem(C, i, m) == IF IdxOK(i, Len(C)) THEN Done([C EXCEPT ![Idx(i, Len(C)) + 1] = m], OKAY)
                      ELSE Done(C, ERR)
DoDelItem(C, i) == IF IdxOK(i, Len(C)) THEN Done(Without(C, Idx(i, Len(C)) + 1), OKAY)
                   ELSE Done(C, ERR)
DoPop(C, i) == IF IdxOK(i, Len(C))
               THEN Done(Without(C, Idx(i, Len(C)) + 1), Res("one", <<C[Idx(i, Len(C)) + 1]>>))
               ELSE Done(C, ERR)
DoRemove(O, X, C, m) == LET i == FirstEq(O, X, C, m)
                        IN IF i = 0 THEN Done(C, ERR) ELSE Done(Without(C, i), OKAY)
DoSetSlice(C, a, b, st, ms) ==
    LET n == Len(C)
        q == SliceIdx(a, b, st, n)
        lo == SliceLo(a, n, 1)
        hi == MaxOf(lo, SliceHi(b, n, 1))
    IN IF st = 1 THEN Done(Cut(C, 0, lo) \o ms \o Cut(C, hi, n), OKAY)
       ELSE IF Len(q) # Len(ms) THEN Done(C, ERR)
       ELSE Done([i \in 1..n |-> IF \E k \in 1..Len(q) : q[k] = i - 1
                                 THEN ms[CHOOSE k \in 1..Len(q) : q[k] = i - 1] ELSE C[i]], OKAY)
DoDelSlice(C, a, b, st) ==
    LET q == RangeOf(SliceIdx(a, b, st, Len(C)))
    IN Done(AtPositions(C, {i \in 1..Len(C) : (i - 1) \notin q}), OKAY)

\* e : event record [op, a, m]
Edit(O, X, C, e) ==
    CASE e.op = "append"   -> DoInsert(C, Len(C), e.m[1])
      [] e.op = "insert"   -> DoInsert(C, e.a[1], e.m[1])
      [] e.op = "extend"   -> Done(C \o e.m, OKAY)
      [] e.op = "iadd"     -> Done(C \o e.m, OKAY)
      [] e.op = "extself"  -> Done(C \o C, OKAY)
      [] e.op = "setitem"  -> DoSetItem(C, e.a[1], e.m[1])
      [] e.op = "delitem"  -> DoDelItem(C, e.a[1])
      [] e.op = "pop"      -> DoPop(C, e.a[1])
      [] e.op = "remove"   -> DoRemove(O, X, C, e.m[1])
      [] e.op = "setslice" -> DoSetSlice(C, e.a[1], e.a[2], e.a[3], e.m)
      [] e.op = "delslice" -> DoDelSlice(C, e.a[1], e.a[2], e.a[3])
      \* an index that is no integer, a slice of step 0, or something that is no match
      [] e.op = "misput"   -> Done(C, ERR)
      [] e.op = "reverse"  -> Done(Rev(C), OKAY)
      \* from here on the collection is a slice of the former one, over the same text
      [] e.op = "keepslice" -> LET q == SliceIdx(e.a[1], e.a[2], e.a[3], Len(C))
                               IN Done([i \in 1..Len(q) |-> C[q[i] + 1]], OKAY)
      [] e.op = "clear"    -> Done(<<>>, OKAY)
      [] e.op = "reject"   -> Done(C, ERR)     \* a marker offered to Matches (or the converse)
      [] OTHER             -> Done(C, OKAY)    \* no edit: only lookups

\* ---------------------------------------------------------------- lookups ----
MaxEnd(O, X, C) == LET ends == {O[C[i]].e : i \in 1..Len(C)} \cup {0, Len(X)}
                   IN SetMax(ends)

Covers(O, m, p) == O[m].s <= p /\ p < O[m].e

Named(O, C, n) == Keep(C, LAMBDA m : O[m].n = n)
Tagged(O, C, t) == Flat([i \in 1..Len(C) |->
                       AtPositions([k \in 1..Len(O[C[i]].t) |-> C[i]],
                                   {k \in 1..Len(O[C[i]].t) : O[C[i]].t[k] = t})])
Starting(O, C, p) == Keep(C, LAMBDA m : O[m].s = p)
Ending(O, C, p) == Keep(C, LAMBDA m : O[m].e = p)
AtIndex(O, C, p) == Keep(C, LAMBDA m : Covers(O, m, p))
AtSpan(O, X, C, a, b) ==
    LET st == AtIndex(O, C, a)
        en == AtIndex(O, C, b - 1)
        \* matches under the last position that equal none already listed
        Grow[k \in 0..Len(en)] ==
            IF k = 0 THEN st
            ELSE LET p == Grow[k - 1]
                 IN IF \E i \in 1..Len(p) : EqM(O, X, p[i], en[k]) THEN p ELSE Append(p, en[k])
    IN Grow[Len(en)]

Sorted(O, C) == StableSort(C, LAMBDA a, b : SpanBefore(O, a, b))

InRange(O, X, C, a, b) ==
    LET hi == IF b = NONE THEN MaxEnd(O, X, C) ELSE MinOf(b, MaxEnd(O, X, C))
    IN Keep(Sorted(O, C), LAMBDA m : O[m].s < hi /\ O[m].e > a)

Previous(O, C, m) ==
    LET E == {O[C[i]].e : i \in 1..Len(C)}
        F == {x \in E : x <= O[m].s /\ x >= 0}
    IN IF F = {} THEN <<>> ELSE Ending(O, C, SetMax(F))
NextOf(O, C, m) ==
    LET S == {O[C[i]].s : i \in 1..Len(C)}
        F == {x \in S : x > O[m].s}
    IN IF F = {} THEN <<>> ELSE Starting(O, C, SetMin(F))

\* matches sharing a position with m, by first shared position then collection
\* order, equal matches listed once, m itself (or its equal) left out
Conflicting(O, X, C, m) ==
    LET all == DedupBy(Flat([k \in 1..(O[m].e - O[m].s) |-> AtIndex(O, C, O[m].s + k - 1)]),
                       LAMBDA a, b : EqM(O, X, a, b))
        i == FirstEq(O, X, all, m)
    IN IF i = 0 THEN [ok |-> FALSE, v |-> <<>>] ELSE [ok |-> TRUE, v |-> Without(all, i)]

\* the run of (accepted) matches met going through ps, crossing only separators
ChainRun(O, X, C, ps, seps, Acc(_)) ==
    LET at(k) == Keep(AtIndex(O, C, ps[k]), Acc)
        stops == {k \in 1..Len(ps) : at(k) = <<>> /\ X[ps[k] + 1] \notin seps}
        n == IF stops = {} THEN Len(ps) ELSE SetMin(stops) - 1
    IN DedupBy(Flat([k \in 1..n |-> at(k)]), LAMBDA a, b : EqM(O, X, a, b))

Upto(a, b) == IF b <= a THEN <<>> ELSE [k \in 1..(b - a) |-> a + k - 1]

ChainBefore(O, X, C, pos, start, seps, Acc(_)) ==
    ChainRun(O, X, C, Rev(Upto(start, MinOf(pos, MaxEnd(O, X, C)))), seps, Acc)
ChainAfter(O, X, C, pos, end, seps, Acc(_)) ==
    LET hi == IF end = NONE THEN MaxEnd(O, X, C) ELSE MinOf(end, MaxEnd(O, X, C))
    IN ChainRun(O, X, C, Upto(pos, hi), seps, Acc)

\* Holes.  D: the collection without ignored matches.
HoleEnd(O, X, C, b) == IF b = NONE THEN MaxEnd(O, X, C) ELSE MinOf(b, MaxEnd(O, X, C))
Free(O, D, p) == \A i \in 1..Len(D) : ~Covers(O, D[i], p)

\* without separators: the maximal uncovered stretches of [a, hi)
PlainHoles(O, D, a, hi) ==
    LET U == {p \in a..(hi - 1) : Free(O, D, p)}
        begins == {p \in U : (p - 1) \notin U}
        stop(p) == SetMin({q \in (p + 1)..hi : q \notin U})
        bs == SeqOfSet(begins)
    IN [k \in 1..Len(bs) |-> <<bs[k], stop(bs[k])>>]

\* with separators: a scan; an open hole is closed by a covered position, by a
\* separator or by the end of the range, and the next uncovered position that
\* is not consumed by closing opens a new one.  The scan begins at the nearest
\* match start before the range, so a stretch already open when the range
\* begins counts from the beginning of the range.
RECURSIVE SepScan(_, _, _, _, _, _, _, _)
SepScan(O, X, D, seps, p, hi, open, got) ==
    IF p >= hi THEN IF open = NONE THEN got ELSE Append(got, <<open, hi>>)
    ELSE IF open # NONE /\ (X[p + 1] \in seps \/ ~Free(O, D, p))
         THEN SepScan(O, X, D, seps, p + 1, hi, NONE, Append(got, <<open, p>>))
    ELSE IF open = NONE /\ Free(O, D, p) THEN SepScan(O, X, D, seps, p + 1, hi, p, got)
    ELSE SepScan(O, X, D, seps, p + 1, hi, open, got)
SepHoles(O, X, D, seps, a, hi) ==
    LET before == {O[D[i]].s : i \in 1..Len(D)} \cap (0..(a - 1))
        from == IF before = {} THEN 0 ELSE SetMax(before)
        raw == SepScan(O, X, D, seps, from, hi, NONE, <<>>)
        clipped == [k \in 1..Len(raw) |-> <<MaxOf(raw[k][1], a), raw[k][2]>>]
    IN Keep(clipped, LAMBDA h : h[1] < h[2])

\* fmt: characters put in front by the formatter (<<>> : no formatter)
HoleText(X, h, fmt) == IF X = <<>> THEN (IF fmt = <<>> THEN NoVal ELSE Append(fmt, "N"))
                       ELSE fmt \o Cut(X, MinOf(h[1], Len(X)), MinOf(h[2], Len(X)))
Holes(O, X, C, q) ==
    LET D == Keep(C, LAMBDA m : m \notin RangeOf(q.m))
        hi == HoleEnd(O, X, C, q.a[2])
        hs == IF q.cs = <<>> THEN PlainHoles(O, D, q.a[1], hi)
              ELSE SepHoles(O, X, D, RangeOf(q.cs), q.a[1], hi)
        \* predicate: holes of at least q.a[3] positions
        f == IF q.hp THEN Keep(hs, LAMBDA h : h[2] - h[1] >= q.a[3]) ELSE hs
        sel == IF q.ix = NONE THEN f
               ELSE IF IdxOK(q.ix, Len(f)) THEN <<f[Idx(q.ix, Len(f)) + 1]>> ELSE <<>>
        kk == IF q.ix = NONE THEN "list" ELSE IF sel = <<>> THEN "none" ELSE "one"
    IN [k |-> kk, v |-> sel, w |-> [i \in 1..Len(sel) |-> HoleText(X, sel[i], q.ss)]]

NamedAny(O, C, ns) == LET d == Dedup(ns) IN Flat([i \in 1..Len(d) |-> Named(O, C, d[i])])

TagSeq(O, C) == Dedup(Flat([i \in 1..Len(C) |-> O[C[i]].t]))
NameSeq(O, C) == Dedup(Keep([i \in 1..Len(C) |-> O[C[i]].n], LAMBDA n : n # ""))

\* q : lookup record [op, a, m, hp, p, ix, ss, cs, r];  names and tags are sets,
\* the recorder sorts them - the specification sorts nothing and compares sets.
Lookup(O, X, C, q) ==
    LET P == RangeOf(q.p)
        F(s) == FilterIndex(s, q.hp, P, q.ix)
        Acc(m) == ~q.hp \/ m \in P
    IN CASE q.op = "named"     -> F(NamedAny(O, C, q.ss))
         [] q.op = "tagged"    -> F(Tagged(O, C, q.ss[1]))
         [] q.op = "starting"  -> F(Starting(O, C, q.a[1]))
         [] q.op = "ending"    -> F(Ending(O, C, q.a[1]))
         [] q.op = "at_index"  -> F(AtIndex(O, C, q.a[1]))
         [] q.op = "at_span"   -> F(AtSpan(O, X, C, q.a[1], q.a[2]))
         [] q.op = "at_match"  -> F(AtSpan(O, X, C, O[q.m[1]].s, O[q.m[1]].e))
         [] q.op = "range"     -> F(InRange(O, X, C, q.a[1], q.a[2]))
         [] q.op = "previous"  -> F(Previous(O, C, q.m[1]))
         [] q.op = "next"      -> F(NextOf(O, C, q.m[1]))
         [] q.op = "conflicting" -> LET c == Conflicting(O, X, C, q.m[1])
                                    IN IF c.ok THEN F(c.v) ELSE ERR
         [] q.op = "chain_before" ->
                LET pos == IF q.m = <<>> THEN q.a[1] ELSE O[q.m[1]].s
                IN FilterIndex(ChainBefore(O, X, C, pos, q.a[2], RangeOf(q.cs), Acc), q.hp, P, q.ix)
         [] q.op = "chain_after" ->
                LET pos == IF q.m = <<>> THEN q.a[1] ELSE O[q.m[1]].e
                IN FilterIndex(ChainAfter(O, X, C, pos, q.a[2], RangeOf(q.cs), Acc), q.hp, P, q.ix)
         [] q.op = "holes"     -> Holes(O, X, C, q)
         [] q.op = "names"     -> [k |-> "set", v |-> <<>>, w |-> NameSeq(O, C)]
         [] q.op = "tags"      -> [k |-> "set", v |-> <<>>, w |-> TagSeq(O, C)]
         [] q.op = "max_end"   -> Res("int", <<MaxEnd(O, X, C)>>)
         [] q.op = "len"       -> Res("int", <<Len(C)>>)
         [] q.op = "contains"  -> Res("int", <<IF FirstEq(O, X, C, q.m[1]) = 0 THEN 0 ELSE 1>>)
         [] q.op = "count"     -> Res("int", <<Cardinality({i \in 1..Len(C) : EqM(O, X, C[i], q.m[1])})>>)
         [] q.op = "index"     -> LET i == FirstEq(O, X, C, q.m[1])
                                  IN IF i = 0 THEN ERR ELSE Res("int", <<i - 1>>)
         [] q.op = "getitem"   -> IF IdxOK(q.a[1], Len(C)) THEN Res("one", <<C[Idx(q.a[1], Len(C)) + 1]>>) ELSE ERR
         [] q.op = "getslice"  -> LET s == SliceIdx(q.a[1], q.a[2], q.a[3], Len(C))
                                  IN Res("list", [i \in 1..Len(s) |-> C[s[i] + 1]])
         [] q.op = "iter"      -> Res("list", C)
         [] q.op = "reversed"  -> Res("list", Rev(C))
         [] q.op = "keyget"    -> LET s == Named(O, C, q.ss[1])
                                  IN IF s = <<>> \/ Val(O, X, s[1]) = NoVal THEN Res("none", <<>>)
                                     ELSE [k |-> "one", v |-> <<>>, w |-> <<Val(O, X, s[1])>>]
         [] q.op = "keyall"    -> LET s == Named(O, C, q.ss[1])
                                  IN [k |-> "list", v |-> <<>>, w |-> [i \in 1..Len(s) |-> Val(O, X, s[i])]]

\* does the answer recorded in the lookup agree with what the specification says
LookupOK(O, X, C, q, r) ==
    LET x == Lookup(O, X, C, q)
    IN IF q.op \in {"names", "tags"}
       THEN r.k = x.k /\ Len(r.w) = Len(x.w) /\ RangeOf(r.w) = RangeOf(x.w)
       ELSE Same(r, x)
=============================================================================
