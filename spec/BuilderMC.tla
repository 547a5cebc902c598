-------------------------------- MODULE BuilderMC --------------------------------
(* Laws of module Builder: every sequence of at most N declarations, each     *)
(* from a small set of options, then every pattern that may be built.         *)
EXTENDS Builder
CONSTANT N

One(x) == [f |-> "one", x |-> <<x>>]
Lst(x) == [f |-> "list", x |-> x]
Map(n, x) == [f |-> "map", x |-> <<[k |-> n, v |-> <<x>>]>>]
Vals(i) == <<[k |-> "name", v |-> One(<<"p", "q">>[i])], [k |-> "tags", v |-> Lst(<<<<"t", "u">>[i]>>)],
             [k |-> "formatter", v |-> Map("x", <<"F", "G">>[i])], [k |-> "formatter", v |-> Map("y", <<"F", "G">>[i])],
             [k |-> "formatter", v |-> One(<<"F", "G">>[i])]>>
Own == <<<<>>>> \o [i \in 1..5 |-> <<Vals(1)[i]>>] \o [i \in 1..5 |-> <<Vals(2)[i]>>] \o <<<<[k |-> "name", v |-> [f |-> "none", x |-> <<>>]]>>>>
KeysOf == <<[n |-> "x", v |-> <<"K">>], [n |-> "p", v |-> <<"L">>], [n |-> "x", v |-> <<"M">>]>>

VARIABLES S, steps, last
Init == S = [B |-> <<NoDefaults, NoDefaults>>, T |-> <<>>, roots |-> <<<<>>, <<>>>>] /\ steps = 0 /\ last = [op |-> "none"]
Key(form, ks) == [form |-> form, ks |-> ks]
Ev(op, b, kind, own, clear, key, over) ==
    [op |-> op, b |-> b, kind |-> kind, own |-> own, clear |-> clear, key |-> key, over |-> over, srcs |-> <<>>, env |-> <<>>,
     rets |-> <<>>, lo |-> 1, hi |-> 1, hid |-> FALSE]
NoKey == Key("none", <<>>)
Passed == <<NoKey, Key("one", <<KeysOf[1]>>), Key("many", <<KeysOf[1], [n |-> "y", v |-> <<"L">>]>>)>>
Do(e) == /\ last' = e
         /\ S' = IF e.op = "build" THEN Built(S, e).st ELSE Declared2(S, e)
Next == /\ steps < N /\ steps' = steps + 1
        /\ \E b \in {1, Len(S.B)} :
              \/ /\ steps < N - 1
                 /\ \/ \E k \in {"all", "string", "chain"}, o \in 2..Len(Own), c \in BOOLEAN :
                          (c => k = "string") /\ Do(Ev("defaults", b, k, Own[o], c, NoKey, <<>>))
                    \/ \E k \in 1..Len(KeysOf) : Do(Ev("keys", b, "all", <<>>, FALSE, Key("many", <<KeysOf[k]>>), <<>>))
              \/ steps > 0 /\ b = 1 /\ Do(Ev("reset", 1, "all", <<>>, FALSE, NoKey, <<>>))
              \/ /\ steps > 0
                 /\ \E k \in {"string", "chain"}, o \in 1..Len(Own), v \in BOOLEAN, q \in 1..Len(Passed) :
                          (v => q = 1 /\ o > 1) /\ Do(Ev("build", b, k, Own[o], FALSE, Passed[q], IF v /\ o > 1 THEN <<Own[o][1].k>> ELSE <<>>))
Spec == Init /\ [][Next]_<<S, steps, last>>

Newest == S.T[Len(S.T)].rec
WasBuilt == last.op = "build" /\ ~KeyClash(last.own, last.key)
Had == S.B[last.b]                               \* building leaves the builder's declarations alone
OwnM == WithKey(last.own, last.key)
In(m, k) == IF HasKey(m, k) THEN {ValueOf(m, k)} ELSE {}
\* a single thing: own, else that of the kind, else the general one - whatever the way it got there
Nearest == WasBuilt => LET n == In(OwnM, "name") \cup (IF HasKey(OwnM, "name") THEN {} ELSE
                                    In(Had[last.kind], "name") \cup (IF HasKey(Had[last.kind], "name") THEN {} ELSE In(Had.all, "name")))
                       IN ("name" \notin RangeOf(last.over)) =>
                          Newest.name = (IF n = {} \/ (CHOOSE v \in n : TRUE).f = "none" THEN "" ELSE (CHOOSE v \in n : TRUE).x[1])
\* lists add up, the general ones first; an overriding list stands alone
Lists == WasBuilt =>
    LET t(m) == IF HasKey(m, "tags") THEN ValueOf(m, "tags").x ELSE <<>>
    IN Newest.tags = IF "tags" \in RangeOf(last.over) THEN t(last.own) ELSE t(Had.all) \o t(Had[last.kind]) \o t(OwnM)
\* for each name the nearest converter; nothing nearer is ever given up
Dicts == WasBuilt /\ last.over = <<>> =>
    \A n \in {"x", "y"} :
        LET at(m) == IF HasKey(m, "formatter") /\ ValueOf(m, "formatter").f = "map" /\ HasKey(ValueOf(m, "formatter").x, n)
                     THEN {ValueOf(ValueOf(m, "formatter").x, n)} ELSE {}
            bare(m) == Bare(m)
            got == IF HasKey(Newest.fm, n) THEN {ValueOf(Newest.fm, n)} ELSE {}
        IN /\ at(OwnM) # {} => got = at(OwnM)
           /\ (at(OwnM) = {} /\ ~bare(OwnM) /\ at(Had[last.kind]) # {}) => got = at(Had[last.kind])
           /\ (~bare(OwnM) /\ ~bare(Had[last.kind]) /\ at(OwnM) = {} /\ at(Had[last.kind]) = {} /\ at(Had.all) # {})
                 => got = at(Had.all)
           \* a declared key serves where nothing else does, unless one function serves all
           /\ LET K == {i \in 1..Len(Had.keys) : Had.keys[i].n = n}
              IN (K # {} /\ got # {} /\ at(OwnM) = {} /\ at(Had[last.kind]) = {} /\ at(Had.all) = {}) =>
                    got = {Had.keys[i].v : i \in K}
\* a typed key names the match and converts it, unless told otherwise
Typed == (WasBuilt /\ last.key.form = "one") =>
    /\ ~HasKey(last.own, "name") => Newest.name = "x"
    /\ (~HasKey(last.own, "formatter") /\ last.over = <<>>) => Newest.fm = <<[k |-> "*", v |-> <<"K">>]>>
\* what was built stays what it was, and declarations on one builder leave the others alone
Stable == [][/\ \A i \in 1..Len(S.T) : S'.T[i].rec = S.T[i].rec
             /\ \A b \in 1..Len(S.B) : (last'.op = "build" \/ last'.b # b) => S'.B[b] = S.B[b]]_<<S, steps, last>>
\* a chain's builder starts with what the chain's builder has at that time
Starts == (WasBuilt /\ last.kind = "chain") => [S.B[Len(S.B)] EXCEPT !.of = 0, !.up = 0] = [Had EXCEPT !.of = 0, !.up = 0]
\* closing a chain ends at an engine: that of the builder the chain was declared on
Owners == \A b \in 1..Len(S.B) : LET o == Leaves(S, [op |-> "close", b |-> b])
                                IN S.B[o].of = 0 /\ (S.B[b].of # 0 => o = Owner(S, S.B[b].up)) /\ (S.B[b].of = 0 => o = b)
Renewed == last.op = "reset" => S.B[1] = NoDefaults /\ S.roots[1] = <<>>
Cleared == (last.op = "defaults" /\ last.clear) => S.B[last.b][last.kind] = last.own
=============================================================================
