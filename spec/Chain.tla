---------------------------------- MODULE Chain ----------------------------------
(* Chains of patterns (rebulk.chain), over an object table: members of a      *)
(* chain are shared between the chain match and the matches they come from.   *)
(*                                                                            *)
(* A chain c is a pattern record of kind "chain" with                         *)
(*   parts : sequence of [p, lo, hi, hid]  (hi = NONE: no bound; p may be a   *)
(*           chain in turn; pid identifies a pattern)                         *)
(*   brk   : chain breaker [k, a]: refuses an element by what the chain would *)
(*           become                                                           *)
(* An object: [s, e, n, t, priv, mark, lit, fm, ix, rs, re, par, kids, pid]   *)
EXTENDS Patterns

ObjOf(m, pid, par) == [s |-> m.s, e |-> m.e, n |-> m.n, t |-> m.t, priv |-> m.priv, mark |-> m.mark, lit |-> m.lit, fm |-> m.fm,
                       ix |-> m.ix, rs |-> m.rs, re |-> m.re, par |-> par, kids |-> <<>>, pid |-> pid]
\* allocate a match tree: the match is object Len(O)+1, its children follow
Put(O, m, pid) == LET i == Len(O) + 1
                      k == Len(m.kids)
                  IN Append(O, [ObjOf(m, pid, 0) EXCEPT !.kids = <<>> \o [j \in 1..k |-> i + j]])
                     \o [j \in 1..k |-> ObjOf(m.kids[j], pid, i)]
Shift(O, from, off) == <<>> \o [i \in 1..Len(O) |-> IF i <= from THEN O[i] ELSE [O[i] EXCEPT !.s = @ + off, !.e = @ + off,
                                                                         !.rs = IF @ = NONE THEN @ ELSE @ + off,
                                                                         !.re = IF @ = NONE THEN @ ELSE @ + off]]

RECURSIVE Root(_, _)
Root(O, i) == IF O[i].par = 0 THEN i ELSE Root(O, O[i].par)

\* ------------------------------------------------------------ plain patterns --
\* found: the occurrences in order, each with its rank
LeafPut(p, X, O0, all) ==
    LET f[k \in 0..Len(all)] ==
            IF k = 0 THEN [O |-> O0, raws |-> <<>>, outs |-> <<>>]
            ELSE LET a == f[k - 1]
                     x == Settled(p, X, all[k].m, all[k].ix)
                     i == Len(a.O) + 1
                     r == Append(a.raws, [s |-> all[k].m.s, e |-> all[k].m.e, ix |-> all[k].ix])
                 IN IF ~x.ok THEN [O |-> a.O, raws |-> r, outs |-> a.outs]
                    ELSE [O |-> Put(a.O, x.m, p.pid), raws |-> r,
                          outs |-> a.outs \o [j \in 1..Len(x.out) |-> i + x.out[j].w]]
        z == f[Len(all)]
    IN [z EXCEPT !.outs = PostProcess(p.pp, @)]
Ranked(q) == <<>> \o [k \in 1..Len(q) |-> [m |-> q[k], ix |-> k - 1]]
\* in a chain part the occurrences of several expressions are read from left to right
LeafFind(p, X, b, O0) ==
    LET raws(i) == Raw(p, X, b, i)
        mixed == StableSort(Flat([i \in 1..Subs(p) |-> raws(i)]), LAMBDA x, y : x.s < y.s)
        apart[k \in 0..Len(mixed)] ==
            IF k = 0 THEN <<>>
            ELSE LET q == apart[k - 1] IN IF q # <<>> /\ q[Len(q)].e > mixed[k].s THEN q ELSE Append(q, mixed[k])
        found == IF Subs(p) = 1 THEN raws(1) ELSE apart[Len(mixed)]
    IN LeafPut(p, X, O0, Ranked(found))
\* a pattern on its own is searched expression by expression
LeafAlone(p, X, O0) == LeafPut(p, X, O0, Flat([i \in 1..Subs(p) |-> Ranked(Raw(p, X, 0, i))]))

\* ------------------------------------------------------------------ the parts --
\* a run of spans without gap, from the start of the text unless it opens the chain
RunLength(spans, opens) ==
    LET n == Len(spans)
        f[k \in 0..n] == IF k <= 1 THEN k ELSE IF f[k - 1] = k - 1 /\ spans[k - 1].e >= spans[k].s THEN k ELSE f[k - 1]
    IN IF n = 0 \/ (~opens /\ spans[1].s > 0) THEN 0 ELSE f[n]
Within(part, ix) == part.hi = NONE \/ ix < part.hi

TakenRaws(part, opens, raws) == SelectSeq(Cut(raws, 0, RunLength(raws, opens)), LAMBDA r : Within(part, r.ix))
TakenOuts(part, opens, O, outs) ==
    LET spans == [k \in 1..Len(outs) |-> LET r == Root(O, outs[k]) IN [s |-> From(O[r]), e |-> Upto(O[r])]]
    IN SelectSeq(Cut(outs, 0, RunLength(spans, opens)), LAMBDA i : Within(part, O[i].ix))

\* ------------------------------------------------------------- chain breakers --
Refuses(brk, O, ids) ==
    IF ids = <<>> THEN FALSE
    ELSE LET last == O[ids[Len(ids)]]
             lo == SetMin({O[ids[i]].s : i \in 1..Len(ids)})
             hi == SetMax({O[ids[i]].e : i \in 1..Len(ids)})
         IN CASE brk.k = "many" -> Len(ids) > Len(brk.a)
              [] brk.k = "wide" -> hi - lo > Len(brk.a)
              [] brk.k = "name" -> last.n \in RangeOf(brk.a)
              [] OTHER          -> FALSE

\* ---------------------------------------------------------------- chain match --
\* members joined into a match of chain c: children first, then the member itself
Joined(c, O, mem) ==
    LET lo == SetMin({O[mem[i]].s : i \in 1..Len(mem)})
        hi == SetMax({O[mem[i]].e : i \in 1..Len(mem)})
        M == Len(O) + 1
        f[k \in 0..Len(mem)] ==
            IF k = 0 THEN [kids |-> <<>>, own |-> {}]
            ELSE LET a == f[k - 1]
                     ks == a.kids \o O[mem[k]].kids
                 IN IF mem[k] \in RangeOf(ks) THEN [kids |-> ks, own |-> a.own]
                    ELSE [kids |-> Append(ks, mem[k]), own |-> a.own \cup {mem[k]}]
        z == f[Len(mem)]
    IN Append([i \in 1..Len(O) |-> IF i \in z.own THEN [O[i] EXCEPT !.par = M] ELSE O[i]],
              [ObjOf(Blank(c, lo, hi), c.pid, 0) EXCEPT !.kids = z.kids])

\* the part of chain c the matches of pattern pid come from, by itself or through
\* chains nested in it (0: none)
RECURSIVE HoldsPid(_, _)
HoldsPid(p, pid) == p.pid = pid \/ (p.kind = "chain" /\ \E j \in 1..Len(p.parts) : HoldsPid(p.parts[j].p, pid))
PartOf(c, pid) == LET J == {j \in 1..Len(c.parts) : HoldsPid(c.parts[j].p, pid)} IN IF J = {} THEN 0 ELSE SetMin(J)

\* dress and validate; a chain match that fails gives up trailing repetitions of its
\* last part down to the minimum of that part, with all the members of those which
\* are chains
ProcChain(c, X, O0, i, ix, child) ==
    LET D(O) == [O EXCEPT ![i] = Dress(c, [@ EXCEPT !.ix = ix], child)]
        O1 == D(O0)
        ks == O1[i].kids
        lastp == O1[ks[Len(ks)]].pid
        last == PartOf(c, lastp)
        same == SelectSeq(ks, LAMBDA k : O1[k].pid = lastp \/ (last > 0 /\ PartOf(c, O1[k].pid) = last))
        every == SeqOfSet({O1[same[j]].ix : j \in 1..Len(same)})
        least == IF last = 0 THEN 0 ELSE MinOf(c.parts[last].lo, Len(every))
        ranks == Rev(Cut(every, least, Len(every)))
        \* give up ranks one by one until accepted
        f[k \in 0..Len(ranks)] ==
            IF k = 0 THEN [ok |-> FALSE, O |-> O1]
            ELSE LET a == f[k - 1] IN
                 IF a.ok THEN a
                 ELSE LET gone == SelectSeq(same, LAMBDA j : a.O[j].ix = ranks[k])
                          lost == RangeOf(gone) \cup UNION {RangeOf(a.O[j].kids) : j \in RangeOf(gone)}
                          kids == SelectSeq(a.O[i].kids, LAMBDA j : j \notin lost)
                          O2 == D([a.O EXCEPT ![i].kids = kids, ![i].e = a.O[kids[Len(kids)]].e])
                      IN IF kids = <<>> THEN a ELSE [ok |-> Accepts(c, X, O2[i], child), O |-> O2]
    IN IF Accepts(c, X, O1[i], child) THEN [ok |-> TRUE, O |-> O1]
       ELSE IF ks = <<>> THEN [ok |-> FALSE, O |-> O1]
       ELSE LET z == f[Len(ranks)]
            IN IF z.ok THEN z
               ELSE [ok |-> FALSE, O |-> [z.O EXCEPT ![i].kids = ks, ![i].e = O1[i].e]]

\* ----------------------------------------------------------------- the search --
\* objects after the first n that no object of ids is related to are forgotten
RECURSIVE Related(_, _)
Related(O, S) == LET T == S \cup UNION {RangeOf(O[i].kids) : i \in S} \cup ({O[i].par : i \in S} \ {0})
                 IN IF T = S THEN S ELSE Related(O, T)
Forget(O, n, ids) ==
    LET keep == SeqOfSet({i \in Related(O, RangeOf(ids)) : i > n})
        new(i) == IF i <= n THEN i ELSE n + CHOOSE j \in 1..Len(keep) : keep[j] = i
    IN [O |-> SubSeq(O, 1, n) \o [j \in 1..Len(keep) |->
                 LET o == O[keep[j]] IN [o EXCEPT !.par = new(@), !.kids = <<>> \o [k \in 1..Len(@) |-> new(@[k])]]],
        ids |-> <<>> \o [k \in 1..Len(ids) |-> new(ids[k])]]

\* X: the text seen, which starts at offset b of the whole text
RECURSIVE ChainFind(_, _, _, _)
Find(p, X, b, O) == IF p.kind = "chain" THEN ChainFind(p, X, b, O) ELSE LeafFind(p, X, b, O)
FindAlone(p, X, O) == IF p.kind = "chain" THEN ChainFind(p, X, 0, O) ELSE LeafAlone(p, X, O)

\* one attempt from offset off:  [O, cur, first, mem, ok, found]
Attempt(c, X, b, O0, off) ==
    LET n == Len(c.parts)
        f[j \in 0..n] ==
            IF j = 0 THEN [O |-> O0, cur |-> off, first |-> -1, mem |-> <<>>, ok |-> TRUE]
            ELSE LET a == f[j - 1] IN
                 IF ~a.ok THEN a
                 ELSE LET part == c.parts[j]
                          r == Find(part.p, Cut(X, a.cur, Len(X)), b + a.cur, a.O)
                          raws == TakenRaws(part, j = 1, r.raws)
                          q == Forget(r.O, Len(a.O), TakenOuts(part, j = 1, r.O, r.outs))
                          outs == q.ids
                          O1 == Shift(q.O, Len(a.O), a.cur)
                          count == IF raws = <<>> THEN 0 ELSE SetMax({raws[k].ix : k \in 1..Len(raws)}) + 1
                          \* elements offered one by one to the chain breaker
                          g[k \in 0..Len(raws)] ==
                              IF k = 0 THEN a.mem
                              ELSE LET m == g[k - 1]
                                       el == SelectSeq(outs, LAMBDA i : O1[i].ix = raws[k].ix)
                                   IN IF part.hid \/ Refuses(c.brk, O1, m \o el) THEN m ELSE m \o el
                      IN IF count < part.lo
                         THEN [a EXCEPT !.ok = FALSE, !.O = O0,
                                        !.first = IF @ = -1 /\ raws # <<>> THEN a.cur + raws[1].e ELSE @]
                         ELSE [O |-> O1,
                               cur |-> IF raws = <<>> THEN a.cur ELSE a.cur + raws[Len(raws)].e,
                               first |-> IF a.first = -1 /\ raws # <<>> THEN a.cur + raws[1].e ELSE a.first,
                               mem |-> g[Len(raws)], ok |-> TRUE]
    IN f[n]

RECURSIVE Scan(_, _, _, _, _)
Scan(c, X, b, O, off) ==
    IF off >= Len(X) THEN [O |-> O, ms |-> <<>>]
    ELSE LET a == Attempt(c, X, b, O, off)
         IN IF a.first = -1 THEN [O |-> a.O, ms |-> <<>>]              \* nothing left of any part
            ELSE IF ~a.ok THEN Scan(c, X, b, a.O, a.first)              \* resume after the first constituent
            ELSE IF a.mem = <<>> THEN Scan(c, X, b, a.O, a.cur)
            ELSE LET O1 == Joined(c, a.O, a.mem)
                     r == Scan(c, X, b, O1, a.cur)
                 IN [O |-> r.O, ms |-> <<Len(O1)>> \o r.ms]

\* one chain match, processed like any occurrence
ProcOne(c, X, O0, i, ix) ==
    LET a == IF c.pre = "edit" THEN [O0 EXCEPT ![i].n = "q"] ELSE O0
        r == ProcChain(c, X, a, i, ix, FALSE)
        ks == r.O[i].kids
        f[k \in 0..Len(ks)] == IF k = 0 THEN [ok |-> TRUE, O |-> r.O]
                               ELSE LET z == f[k - 1] IN IF ~z.ok THEN z ELSE ProcChain(c, X, z.O, ks[k], ix, TRUE)
        z == f[Len(ks)]
        O3 == IF c.post = "edit" THEN [z.O EXCEPT ![i].n = "q"] ELSE z.O
        dropped == c.post = "drop" \/ O3[i].e <= O3[i].s
    IN IF c.pre = "drop" THEN [O |-> O0, outs |-> <<>>]
       ELSE IF ~r.ok THEN [O |-> r.O, outs |-> <<>>]
       ELSE IF ~z.ok THEN [O |-> z.O, outs |-> <<>>]
       ELSE IF dropped THEN [O |-> O3, outs |-> <<>>]
       ELSE [O |-> O3,
             outs |-> (IF (WithParent(c) \/ c.pparent) /\ O3[i].n \notin RangeOf(c.inames) THEN <<i>> ELSE <<>>)
                      \o (IF WithChildren(c) \/ c.pchildren
                          THEN SelectSeq(O3[i].kids, LAMBDA k : O3[k].n \notin RangeOf(c.inames)) ELSE <<>>)]

ChainFind(c, X, b, O) ==
    LET s == Scan(c, X, b, O, 0)
        f[k \in 0..Len(s.ms)] ==
            IF k = 0 THEN [O |-> s.O, outs |-> <<>>]
            ELSE LET a == f[k - 1]
                     r == ProcOne(c, X, a.O, s.ms[k], k - 1)
                 IN [O |-> r.O, outs |-> a.outs \o r.outs]
        z == f[Len(s.ms)]
    IN [O |-> z.O, raws |-> <<>> \o [k \in 1..Len(s.ms) |-> [s |-> z.O[s.ms[k]].s, e |-> z.O[s.ms[k]].e, ix |-> k - 1]],
        outs |-> PostProcess(c.pp, z.outs)]
=============================================================================
