------------------------------ MODULE MatchTrace ------------------------------
(* Sessions over a table of real Match objects.  State: the table O (values,  *)
(* names and tags change) and the matches put in a Python set so far.         *)
EXTENDS MatchOps, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, O, S, kids, raw     \* kids, raw : children and text span of each match
vars == <<si, l, O, S, kids, raw>>

Init == /\ si \in 1..Len(Sessions)
        /\ l = 1
        /\ O = Sessions[si].O
        /\ S = <<>>
        /\ kids = [i \in 1..Len(O) |-> <<>>]
        /\ raw = [i \in 1..Len(O) |-> <<NONE, NONE>>]

\* everything observable of a piece of match m
Portrait(X, m, sp) ==
    LET o == [O EXCEPT ![m].s = sp[1], ![m].e = sp[2]]
    IN Val(o, X, m) \o <<"|", O[m].n, "|">> \o O[m].t \o <<"|", IF O[m].priv THEN "1" ELSE "0">>

Pieces(X, e) ==
    LET m == e.m[1]
        all == IF e.op = "split" THEN Splitted(X, O[m].s, O[m].e, RangeOf(e.cs))
               ELSE Cropped(O[m].s, O[m].e, e.crops)
        f == IF e.hp THEN Keep(all, LAMBDA h : h[2] - h[1] >= e.a[1]) ELSE all
        sel == IF e.ix = NONE THEN f
               ELSE IF IdxOK(e.ix, Len(f)) THEN <<f[Idx(e.ix, Len(f)) + 1]>> ELSE <<>>
        kk == IF e.ix = NONE THEN "list" ELSE IF sel = <<>> THEN "none" ELSE "one"
    IN [k |-> kk, v |-> sel, w |-> [i \in 1..Len(sel) |-> Portrait(X, m, sel[i])]]

SeqOfNames(S2) == LET f[T \in SUBSET S2] == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o f[T \ {x}] IN f[S2]

\* matches by what they stand for: the value is read from the raw text
Standing(X) == [i \in 1..Len(O) |-> [O[i] EXCEPT !.lit = <<"=">> \o RawVal(O, X, raw, i)]]

\* formatters in order: a letter is put in front, "0" gives the empty text, "N" None
Formatted(cs) == LET f[k \in 0..Len(cs)] == IF k = 0 THEN <<>>
                                            ELSE CASE cs[k] = "0" -> <<>> [] cs[k] = "N" -> NoVal
                                                   [] OTHER -> <<cs[k]>> \o (IF f[k - 1] = NoVal THEN <<>> ELSE f[k - 1])
                 IN f[Len(cs)]

\* what the event should have answered
Expect(X, e) ==
    CASE e.op = "cmp"     -> Res("int", Compare(Standing(X), X, e.m[1], e.m[2]))
      [] e.op = "foreign" -> Res("int", <<0, 1, 2>>)
      [] e.op = "inset"   -> Res("int", <<B(\E i \in 1..Len(S) : EqM(Standing(X), X, S[i], e.m[1]))>>)
      [] e.op = "sort"    -> Res("list", Sorted(O, e.m))
      [] e.op \in {"split", "crop"} -> Pieces(X, e)
      [] e.op = "look"    -> [k |-> "one", v |-> <<<<O[e.m[1]].s, O[e.m[1]].e>>>>,
                              w |-> <<Portrait(X, e.m[1], Span(O, e.m[1]))>>]
      [] e.op = "family"  -> LET m == e.m[1] IN
                             [k |-> "one", v |-> <<Top(O, m), O[m].par, O[m].e - O[m].s>> \o RawSpan(O, raw, m) \o kids[m],
                              w |-> <<RawVal(O, X, raw, m), IF X = <<>> THEN NoVal ELSE RawText(O, X, raw, m)>>]
      [] e.op = "leaves"  -> [k |-> "set", v |-> <<>>, w |-> SeqOfNames(LeafNames(O, kids, e.m[1]))]
      [] e.op = "named"   -> Res("int", <<B(AnyNamed(O, kids, e.m[1], e.cs))>>)
      [] e.op = "tagged"  -> Res("int", <<B(AnyTagged(O, e.m[1], e.cs))>>)
      [] e.op = "ask"     -> Res("int", AskAll(O, X, e.m[1], e.vs))
      [] e.op = "format"  -> [k |-> "one", v |-> <<>>, w |-> <<Formatted(e.cs)>>]
      [] OTHER            -> OKAY

Agrees(X, e, x) ==
    IF e.op = "cmp"
    THEN /\ e.r.k = "int" /\ Len(e.r.v) = 9
         /\ SubSeq(e.r.v, 1, 8) = x.v
         /\ (x.v[1] = 1 => e.r.v[9] = 1)                    \* equal matches hash alike
    ELSE IF e.op = "crop" /\ x.k = "list"
    THEN /\ e.r.k = "list" /\ Len(e.r.v) = Len(x.v)         \* as a set of pieces
         /\ {<<e.r.v[i], e.r.w[i]>> : i \in 1..Len(e.r.v)} = {<<x.v[i], x.w[i]>> : i \in 1..Len(x.v)}
    ELSE IF e.op = "leaves" THEN e.r.k = "set" /\ RangeOf(e.r.w) = RangeOf(x.w) /\ Len(e.r.w) = Len(x.w)
    ELSE Same(e.r, x)

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET T == Sessions[si]
           e == T.ev[l]
           x == Expect(T.X, e)
       IN IF Agrees(T.X, e, x)
          THEN /\ l' = l + 1
               /\ O' = CASE e.op = "setval"  -> [O EXCEPT ![e.m[1]].lit = e.cs]
                         [] e.op = "setname" -> [O EXCEPT ![e.m[1]].n = e.cs[1]]
                         [] e.op = "settags" -> [O EXCEPT ![e.m[1]].t = e.cs]
                         [] e.op = "setpar"  -> [O EXCEPT ![e.m[1]].par = e.a[1]]
                         [] e.op = "setspan" -> [O EXCEPT ![e.m[1]].s = e.a[1], ![e.m[1]].e = e.a[2]]
                         [] OTHER            -> O
               /\ S' = IF e.op = "put" THEN SetInsert(Standing(T.X), T.X, S, e.m[1]) ELSE S
               /\ kids' = CASE e.op = "addkid" -> [kids EXCEPT ![e.m[1]] = Append(@, e.m[2])]
                           [] e.op = "setkids" -> [kids EXCEPT ![e.m[1]] = Tail(e.m)]
                           [] OTHER -> kids
               /\ raw' = IF e.op = "setraw" THEN [raw EXCEPT ![e.m[1]] = e.a] ELSE raw
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> T.id, l |-> l, c |-> e.op, x |-> x]))
               /\ l' = -l
               /\ UNCHANGED <<O, S, kids, raw>>
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
