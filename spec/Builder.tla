--------------------------------- MODULE Builder ---------------------------------
(* Declaring patterns (rebulk.builder): defaults, keys, options of a pattern. *)
(*                                                                            *)
(* Options are maps: sequences of [k, v], v tagged with what it is:           *)
(*   [f |-> "one",  x]  a single thing (a name, a flag, a function ..)        *)
(*   [f |-> "list", x]  a list;  "tup" another iterable                       *)
(*   [f |-> "map",  x]  a dict: a sequence of [k, v]                          *)
(*   [f |-> "none"]     given, and empty                                      *)
(* A builder: [all, string, re, func, chain, keys, of, up]: its defaults by   *)
(* kind of pattern, its declared keys [n, v], the chain it assembles (0: none)*)
(* and the builder that chain was declared on (0: an engine)                  *)
(* A pattern: [kind, opts, ..] with the options it finally has; it never      *)
(* changes afterwards, but a chain gets parts.                                *)
EXTENDS Engine

SetOpt(m, k, v) == IF HasKey(m, k) THEN [i \in 1..Len(m) |-> IF m[i].k = k THEN [k |-> k, v |-> v] ELSE m[i]]
                   ELSE Append(m, [k |-> k, v |-> v])
NoDefaults == [all |-> <<>>, string |-> <<>>, re |-> <<>>, func |-> <<>>, chain |-> <<>>, keys |-> <<>>, of |-> 0, up |-> 0]

\* ---------------------------------------------------------------- defaults ------
\* declaring replaces option by option; clear drops what was declared before
Declare(m, clear, new) ==
    LET f[k \in 0..Len(new)] == IF k = 0 THEN (IF clear THEN <<>> ELSE m) ELSE SetOpt(f[k - 1], new[k].k, new[k].v)
    IN f[Len(new)]

\* default d under own value v: lists are put in front, dicts completed, anything else yields
Under(d, v) ==
    IF d.f = "list" /\ v.f = "list" THEN [f |-> "list", x |-> d.x \o v.x]
    ELSE IF d.f = "map" /\ v.f = "map"
    THEN [f |-> "map", x |-> v.x \o SelectSeq(d.x, LAMBDA e : ~HasKey(v.x, e.k))]
    ELSE v
Fill(defs, own) ==
    LET f[k \in 0..Len(defs)] ==
            IF k = 0 THEN own
            ELSE LET d == defs[k]
                     q == f[k - 1]
                 IN IF HasKey(q, d.k) THEN SetOpt(q, d.k, Under(d.v, ValueOf(q, d.k))) ELSE Append(q, d)
    IN f[Len(defs)]
\* the options a pattern of that kind finally has; those in over are taken as given
Effective(b, kind, own, over) ==
    LET z == Fill(b.all, Fill(b[kind], own))
        f[k \in 0..Len(over)] == IF k = 0 THEN z ELSE SetOpt(f[k - 1], over[k], ValueOf(own, over[k]))
    IN f[Len(over)]

\* -------------------------------------------------------------------- keys ------
\* key : [form |-> "none" | "one" | "many", ks |-> sequence of [n, v]], v the symbolic converter
Bare(m) == HasKey(m, "formatter") /\ ValueOf(m, "formatter").f = "one"
ByName(m) == IF HasKey(m, "formatter") /\ ValueOf(m, "formatter").f = "map" THEN ValueOf(m, "formatter").x ELSE <<>>
Complete(m, ks) == m \o SelectSeq([i \in 1..Len(ks) |-> [k |-> ks[i].n, v |-> ks[i].v]], LAMBDA e : ~HasKey(m, e.k))
\* several keys need a formatter by name
KeyClash(own, key) == key.form = "many" /\ key.ks # <<>> /\ Bare(own)
WithKey(own, key) ==
    CASE key.form = "one" ->
            LET k == key.ks[1]
                a == IF HasKey(own, "name") THEN own ELSE Append(own, [k |-> "name", v |-> [f |-> "one", x |-> <<k.n>>]])
            IN IF HasKey(a, "formatter") THEN a ELSE Append(a, [k |-> "formatter", v |-> [f |-> "one", x |-> k.v]])
      [] key.form = "many" /\ key.ks # <<>> ->
            SetOpt(own, "formatter", [f |-> "map", x |-> Complete(ByName(own), [i \in 1..Len(key.ks) |->
                                          \* of two keys of one name the first counts
                                          key.ks[SetMin({j \in 1..Len(key.ks) : key.ks[j].n = key.ks[i].n})]])])
      [] OTHER -> own
\* the declared keys serve the names for which there is no formatter, unless one serves all
Inherited(m, keys) == IF Bare(m) THEN m ELSE SetOpt(m, "formatter", [f |-> "map", x |-> Complete(ByName(m), keys)])
DeclareKey(keys, k) == IF \E i \in 1..Len(keys) : keys[i].n = k.n
                       THEN [i \in 1..Len(keys) |-> IF keys[i].n = k.n THEN k ELSE keys[i]] ELSE Append(keys, k)
DeclareKeys(keys, ks) == LET f[i \in 0..Len(ks)] == IF i = 0 THEN keys ELSE DeclareKey(f[i - 1], ks[i]) IN f[Len(ks)]

\* ------------------------------------------------- what the options mean ---------
Given(m, k) == HasKey(m, k) /\ ValueOf(m, k).f # "none"
OneOf(m, k, default) == IF Given(m, k) THEN ValueOf(m, k).x ELSE default
Flag(m, k) == OneOf(m, k, <<"0">>) = <<"1">>
ListOf(m, k) == OneOf(m, k, <<>>)
MapOf(m, k) == IF ~Given(m, k) THEN <<>>
               ELSE IF ValueOf(m, k).f = "map" THEN ValueOf(m, k).x ELSE <<[k |-> "*", v |-> ValueOf(m, k).x]>>
NameOf(m) == IF Given(m, "name") THEN ValueOf(m, "name").x[1] ELSE ""

\* e: what was declared; env: what the regex engine reports for the expressions it may get
RecOf(m, e, id) ==
    LET srcs == [i \in 1..Len(e.srcs) |-> Abbreviated(e.srcs[i], ListOf(m, "abbreviations"))]
        ic == Flag(m, "ignore_case")
        fl == Flag(m, "flags")
        env(s) == CHOOSE i \in 1..Len(e.env) : e.env[i].src = s /\ e.env[i].i = fl
    IN [kind |-> e.kind, name |-> NameOf(m), tags |-> ListOf(m, "tags"), priv |-> Flag(m, "private"), mark |-> Flag(m, "marker"),
        children |-> Flag(m, "children"), every |-> Flag(m, "every"), pparent |-> Flag(m, "private_parent"),
        pchildren |-> Flag(m, "private_children"), pnames |-> ListOf(m, "private_names"), inames |-> ListOf(m, "ignore_names"),
        fall |-> Flag(m, "format_all"), vall |-> Flag(m, "validate_all"), fm |-> MapOf(m, "formatter"), va |-> MapOf(m, "value"),
        vd |-> MapOf(m, "validator"), pre |-> OneOf(m, "pre_match_processor", <<"">>)[1], post |-> OneOf(m, "post_match_processor", <<"">>)[1],
        pp |-> OneOf(m, "post_processor", <<"">>)[1], ic |-> ic, srcs |-> e.srcs,
        occ |-> IF e.kind # "re" THEN <<>>
                ELSE [o \in 1..Len(e.env[1].occ) |-> [i \in 1..Len(srcs) |-> e.env[env(srcs[i])].occ[o]]],
        gn |-> IF e.kind # "re" THEN <<>> ELSE [i \in 1..Len(srcs) |-> e.env[env(srcs[i])].gn],
        rets |-> e.rets, dis |-> IF Flag(m, "disabled") THEN "yes" ELSE "no", pid |-> id, brk |-> LET b == OneOf(m, "chain_breaker", <<"">>) IN [k |-> b[1], a |-> Tail(b)]]

\* ------------------------------------------------------------- declarations ------
\* state: B builders, T patterns [rec, parts], roots: the patterns of each engine
Parented(S, b) == IF S.B[b].of = 0 THEN b ELSE S.B[b].of
Built(S, e) ==
    IF KeyClash(e.own, e.key) THEN [ok |-> FALSE, st |-> S]
    ELSE LET b == S.B[e.b]
             m == Inherited(Effective(b, e.kind, WithKey(e.own, e.key), e.over), b.keys)
             id == Len(S.T) + 1
             T1 == Append(S.T, [rec |-> RecOf(m, e, id), parts |-> <<>>])
             T2 == IF b.of = 0 THEN T1
                   ELSE [T1 EXCEPT ![b.of].parts = Append(@, [id |-> id, lo |-> e.lo, hi |-> e.hi, hid |-> e.hid])]
         IN [ok |-> TRUE,
             st |-> [T |-> T2,
                     roots |-> IF b.of = 0 THEN [S.roots EXCEPT ![e.b] = Append(@, id)] ELSE S.roots,
                     \* a chain is assembled by a builder of its own, which starts with the same defaults and keys
                     B |-> IF e.kind = "chain" THEN Append(S.B, [b EXCEPT !.of = id, !.up = e.b]) ELSE S.B]]
\* where a declaration leaves its caller: on the same builder, on that of the chain begun, or, a chain being
\* closed, on the engine it belongs to
RECURSIVE Owner(_, _)
Owner(S, b) == IF S.B[b].up = 0 THEN b ELSE Owner(S, S.B[b].up)
Leaves(S, e) == CASE e.op = "close" -> Owner(S, e.b)
                  [] e.op = "build" /\ e.kind = "chain" -> Len(S.B) + 1
                  [] OTHER -> e.b
Declared2(S, e) ==
    CASE e.op = "defaults" -> [S EXCEPT !.B[e.b][e.kind] = Declare(@, e.clear, e.own)]
      [] e.op = "keys"     -> [S EXCEPT !.B[e.b].keys = DeclareKeys(@, e.key.ks)]
      \* a brand-new engine; chains still being assembled belong to none
      [] e.op = "reset"    -> [S EXCEPT !.B[e.b] = NoDefaults, !.roots[e.b] = <<>>]
      \* a part of a chain told how often it occurs, or whether to show its matches; what it was told last counts
      [] e.op = "repeat"   -> [S EXCEPT !.T[S.B[e.b].of].parts[e.part].lo = e.lo, !.T[S.B[e.b].of].parts[e.part].hi = e.hi]
      [] e.op = "hide"     -> [S EXCEPT !.T[S.B[e.b].of].parts[e.part].hid = e.hid]
      [] OTHER             -> S                    \* closing a chain declares nothing

\* the pattern with its parts
RECURSIVE Whole(_, _)
Whole(T, id) ==
    LET parts == T[id].parts
    IN IF T[id].rec.kind # "chain" THEN T[id].rec
       ELSE T[id].rec @@ [parts |-> [i \in 1..Len(parts) |-> [p |-> Whole(T, parts[i].id), lo |-> parts[i].lo, hi |-> parts[i].hi,
                                                              hid |-> parts[i].hid]]]
FoundIn(S, X, b) == FoundBy([i \in 1..Len(S.roots[b]) |-> Whole(S.T, S.roots[b][i])], X, [i \in 1..Len(S.roots[b]) |-> i], FALSE)
=============================================================================
