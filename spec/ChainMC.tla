-------------------------------- MODULE ChainMC --------------------------------
(* Laws of module Chain over every small text and chain of string parts.      *)
EXTENDS Chain, TLC
CONSTANTS N, P                                   \* longest text, most parts

Letters == {"a", "b"}
Texts == UNION {[1..k -> Letters] : k \in 0..N}
Base == [kind |-> "string", name |-> "", tags |-> <<>>, priv |-> FALSE, mark |-> FALSE, children |-> FALSE, every |-> FALSE,
         pparent |-> FALSE, pchildren |-> FALSE, pnames |-> <<>>, inames |-> <<>>, fall |-> FALSE, vall |-> FALSE, fm |-> <<>>,
         va |-> <<>>, vd |-> <<>>, pre |-> "", post |-> "", pp |-> "", ic |-> FALSE, srcs |-> <<>>, occ |-> <<>>, gn |-> <<>>,
         rets |-> <<>>, pid |-> 0]
Ways == {[lo |-> 1, hi |-> 1], [lo |-> 1, hi |-> NONE], [lo |-> 0, hi |-> 1], [lo |-> 0, hi |-> NONE], [lo |-> 2, hi |-> 2]}
First == {[lo |-> 1, hi |-> 1], [lo |-> 1, hi |-> NONE], [lo |-> 2, hi |-> 3]}
Part(w, way, hid, pid, vd) == [p |-> [Base EXCEPT !.srcs = <<w>>, !.pid = pid, !.vd = vd], lo |-> way.lo, hi |-> way.hi, hid |-> hid]
NoBrk == [k |-> "", a |-> <<>>]
On(v) == <<[k |-> "*", v |-> v]>>
Checks == {<<>>, On(<<[k |-> "short", a |-> <<".", ".", ".">>]>>), On(<<[k |-> "kids", a |-> <<".">>]>>),
           On(<<[k |-> "rawno", a |-> <<"b">>]>>)}
Breakers == {NoBrk, [k |-> "many", a |-> <<".">>], [k |-> "wide", a |-> <<".", ".">>]}

VARIABLES X, c, stage
vars == <<X, c, stage>>
Empty == [Base EXCEPT !.kind = "chain", !.pid = 1] @@ [parts |-> <<>>, brk |-> NoBrk]
Init == X = <<>> /\ c = Empty /\ stage = 0
AddPart == /\ stage < P /\ stage' = stage + 1
           /\ \E w \in {<<"a">>, <<"b">>} \cup (IF stage = 0 THEN {<<"a", "a">>} ELSE {<<"a", "b">>}) :
              \E way \in IF c.parts = <<>> THEN First ELSE Ways :
              \E hid \in IF c.parts = <<>> THEN {FALSE} ELSE BOOLEAN :
              \E vd \in {<<>>, On(<<[k |-> "no", a |-> <<>>]>>)} :
              c' = [c EXCEPT !.parts = Append(@, Part(w, way, hid, Len(@) + 2, vd))]
           /\ X' = X
\* a chain inside the chain, with a validator of its own
AddChain == /\ stage > 0 /\ stage < P /\ stage' = stage + 1 /\ X' = X
            /\ \E w \in {<<"a">>, <<"b">>}, way \in First, vd \in Checks, only \in BOOLEAN :
               c' = [c EXCEPT !.parts = Append(@, [p |-> [Empty EXCEPT !.pid = 10 + Len(c.parts), !.vd = vd, !.children = only,
                        !.parts = <<Part(w, way, FALSE, 20 + Len(c.parts), <<>>)>>
                            \o (IF only THEN <<Part(<<"a">>, [lo |-> 0, hi |-> 1], FALSE, 30 + Len(c.parts), <<>>)>> ELSE <<>>)],
                        lo |-> 1, hi |-> IF only THEN NONE ELSE 1, hid |-> FALSE])]
Finish == /\ stage > 0 /\ stage <= P /\ stage' = 10
          /\ \E vd \in Checks, b \in Breakers : c' = [c EXCEPT !.vd = vd, !.brk = b]
          /\ X' \in Texts
Next == AddPart \/ AddChain \/ Finish
Spec == Init /\ [][Next]_vars

Done == stage = 10
R0 == Scan(c, X, 0, <<>>, 0)                     \* chains put together, before validation
F0 == Find(c, X, 0, <<>>)                        \* what the chain emits
KidSpans(O, i) == [j \in 1..Len(O[i].kids) |-> <<O[O[i].kids[j]].s, O[O[i].kids[j]].e>>]

\* members which are no chains
Leaves(O, i) == SelectSeq(O[i].kids, LAMBDA k : O[k].pid \notin 10..19)
\* a chain covers its members, which follow each other
Cover(O, i) == LET q == Leaves(O, i)
                   ks == [j \in 1..Len(q) |-> <<O[q[j]].s, O[q[j]].e>>] IN
    /\ ks # <<>>
    /\ O[i].s = ks[1][1] /\ O[i].e = ks[Len(ks)][2]
    /\ \A j \in 1..(Len(ks) - 1) : ks[j][2] <= ks[j + 1][1]
    /\ O[i].s >= 0 /\ O[i].e <= Len(X)
    /\ \A k \in RangeOf(O[i].kids) : O[k].par = i \/ O[k].par \in RangeOf(O[i].kids)
\* so does a chain shortened until its validator accepts it
CoveredStill == Done => \A k \in 1..Len(F0.outs) : Cover(F0.O, F0.outs[k])
Covered == Done => \A k \in 1..Len(R0.ms) : Cover(R0.O, R0.ms[k])
\* chains do not overlap and come in order
Apart == Done => \A k \in 1..(Len(R0.ms) - 1) : R0.O[R0.ms[k]].e <= R0.O[R0.ms[k + 1]].s
\* as many repetitions of each part as it allows
Flat1 == \A j \in 1..Len(c.parts) : c.parts[j].p.kind = "string"
Plain == c.brk.k = "" /\ Flat1 /\ \A j \in 1..Len(c.parts) : ~c.parts[j].hid /\ c.parts[j].p.vd = <<>>
Counted == (Done /\ Plain) => \A k \in 1..Len(R0.ms) : \A j \in 1..Len(c.parts) :
    LET n == Cardinality({i \in RangeOf(R0.O[R0.ms[k]].kids) : R0.O[i].pid = c.parts[j].p.pid})
    IN n >= c.parts[j].lo /\ (c.parts[j].hi = NONE \/ n <= c.parts[j].hi)

\* validation and giving up repetitions respect the bounds too
Bounded == (Done /\ Plain) => \A k \in 1..Len(F0.outs) : \A j \in 1..Len(c.parts) :
    LET n == Cardinality({i \in RangeOf(F0.O[F0.outs[k]].kids) : F0.O[i].pid = c.parts[j].p.pid})
    IN n >= c.parts[j].lo /\ (c.parts[j].hi = NONE \/ n <= c.parts[j].hi)

\* ---- the same language written another way: possessive repetition ----
Word(j) == c.parts[j].p.srcs[1]
RECURSIVE Run(_, _, _)
Run(w, off, max) == IF max = 0 \/ ~At(X, w, off) THEN off ELSE Run(w, off + Len(w), max - 1)
RECURSIVE After(_, _)
After(j, off) ==                                  \* where parts j.. end when read at off, or -1
    IF j > Len(c.parts) THEN off
    ELSE LET w == Word(j)
             e == Run(w, off, IF c.parts[j].hi = NONE THEN 9 ELSE c.parts[j].hi)
         IN IF (e - off) \div Len(w) < c.parts[j].lo THEN -1 ELSE After(j + 1, e)
RECURSIVE Search(_)
Search(off) == IF off >= Len(X) THEN <<>>
               ELSE IF After(1, off) # -1 THEN <<<<off, After(1, off)>>>> \o Search(After(1, off)) ELSE Search(off + 1)
\* with a one-letter first part every position where the chain can be read is found
Complete == (Done /\ Plain /\ Len(Word(1)) = 1) =>
    [k \in 1..Len(R0.ms) |-> <<R0.O[R0.ms[k]].s, R0.O[R0.ms[k]].e>>] = Search(0)
\* whatever the first part, what is found can be read there
Readable == (Done /\ Plain) => \A k \in 1..Len(R0.ms) : After(1, R0.O[R0.ms[k]].s) = R0.O[R0.ms[k]].e

\* ---- validation and fallback ----
Id(O, i) == <<O[i].s, O[i].e>>
Checked == Done => \A k \in 1..Len(F0.outs) : Valid(X, F0.O[F0.outs[k]], Chosen(c.vd, "", FALSE, <<>>))
\* what is emitted is a chain found, less trailing repetitions of its last part
Prefix == (Done /\ Flat1) => \A k \in 1..Len(F0.outs) : \E m \in RangeOf(R0.ms) :
    LET full == KidSpans(R0.O, m)
        kept == KidSpans(F0.O, F0.outs[k])
        lastp == R0.O[R0.O[m].kids[Len(full)]].pid
    IN /\ Len(kept) <= Len(full) /\ kept = SubSeq(full, 1, Len(kept))
       /\ \A j \in (Len(kept) + 1)..Len(full) : R0.O[R0.O[m].kids[j]].pid = lastp
       /\ F0.O[F0.outs[k]].s = R0.O[m].s
       /\ F0.O[F0.outs[k]].e = IF kept = <<>> THEN R0.O[m].s ELSE kept[Len(kept)][2]
\* a repetition of a part is given up with all its members
Whole == Done => \A k \in 1..Len(F0.outs) : \A m \in RangeOf(R0.ms) : R0.O[m].s = F0.O[F0.outs[k]].s =>
    LET kids == R0.O[m].kids
        n == Len(F0.O[F0.outs[k]].kids)
    IN \A x \in 1..n : \A y \in (n + 1)..Len(kids) :
           ~(PartOf(c, R0.O[kids[x]].pid) = PartOf(c, R0.O[kids[y]].pid) /\ R0.O[kids[x]].ix = R0.O[kids[y]].ix)
\* a chain acceptable as found is kept as found
Kept == Done => \A k \in 1..Len(R0.ms) :
    Valid(X, R0.O[R0.ms[k]], Chosen(c.vd, "", FALSE, <<>>)) =>
        \E q \in RangeOf(F0.outs) : KidSpans(F0.O, q) = KidSpans(R0.O, R0.ms[k])
\* the longest acceptable one is kept: one more repetition is refused
Longest == (Done /\ Plain) => \A k \in 1..Len(F0.outs) : \A m \in RangeOf(R0.ms) :
    LET O == F0.O
        i == F0.outs[k]
        full == KidSpans(R0.O, m)
        n == Len(O[i].kids)
    IN (R0.O[m].s = O[i].s /\ n < Len(full)) =>
           ~Valid(X, [O[i] EXCEPT !.kids = SubSeq(R0.O[m].kids, 1, n + 1), !.e = full[n + 1][2]], Chosen(c.vd, "", FALSE, <<>>))
\* the breaker never lets a longer chain through
Broken == (Done /\ Flat1 /\ c.brk.k = "many") => \A k \in 1..Len(R0.ms) : Len(R0.O[R0.ms[k]].kids) <= Len(c.brk.a)
=============================================================================
