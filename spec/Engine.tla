--------------------------------- MODULE Engine ---------------------------------
(* Engines (rebulk.Rebulk): composition of engines and a whole run.           *)
(*                                                                            *)
(* The setup, the only state a run depends on:                                *)
(*   E : engines, each [dis, pats, rules, kids, keys]: patterns, rules and    *)
(*       child engines by number, keys as [n, id]                             *)
(*   P : patterns [.., dis], for the text at hand;  R : rules (module Rules)  *)
(* dis : "no" enabled, "yes" disabled, "on"/"off" disabled when the context   *)
(*       is on / is not                                                       *)
EXTENDS Rules, Chain, TLC

Off(dis, on) == dis = "yes" \/ (dis = "on" /\ on) \/ (dis = "off" /\ ~on)

\* one engine and those of its children that are enabled
Sources(E, i, on) == <<i>> \o SelectSeq(E[i].kids, LAMBDA k : ~Off(E[k].dis, on))

\* own elements as they are, then those of the others that Twin none already there
Union(own, others, Twin(_, _)) ==
    LET f[k \in 0..Len(others)] ==
            IF k = 0 THEN own
            ELSE LET q == f[k - 1] IN IF \E j \in 1..Len(q) : Twin(q[j], others[k]) THEN q ELSE Append(q, others[k])
    IN f[Len(others)]
Others(E, i, on, field(_)) == LET s == Tail(Sources(E, i, on)) IN Flat([j \in 1..Len(s) |-> field(E[s[j]])])

EffPatterns(E, i, on) == Union(E[i].pats, Others(E, i, on, LAMBDA e : e.pats), LAMBDA a, b : a = b)
EffRules(E, R, i, on) == Union(E[i].rules, Others(E, i, on, LAMBDA e : e.rules), LAMBDA a, b : R[a].cls = R[b].cls)
\* a key declared again replaces the one the engine declared before; children only add
Declared(keys) == LET f[k \in 0..Len(keys)] ==
                          IF k = 0 THEN <<>>
                          ELSE LET q == f[k - 1]
                                   I == {j \in 1..Len(q) : q[j].n = keys[k].n}
                               IN IF I = {} THEN Append(q, keys[k]) ELSE [q EXCEPT ![SetMin(I)] = keys[k]]
                  IN f[Len(keys)]
EffKeys(E, i, on) == Union(Declared(E[i].keys), Others(E, i, on, LAMBDA e : Declared(e.keys)), LAMBDA a, b : a.n = b.n)

\* everything found, object by object: [O, C, K]
FoundBy(P, X, ps, on) ==
    LET f[k \in 0..Len(ps)] ==
            IF k = 0 THEN [O |-> <<>>, ids |-> <<>>]
            ELSE LET a == f[k - 1] IN
                 IF Off(P[ps[k]].dis, on) THEN a
                 ELSE LET r == FindAlone(P[ps[k]], X, a.O) IN [O |-> r.O, ids |-> a.ids \o r.outs]
        z == f[Len(ps)]
    IN [O |-> [i \in 1..Len(z.O) |-> z.O[i] @@ [sv |-> ""]],
        C |-> Keep(z.ids, LAMBDA i : ~z.O[i].mark), K |-> Keep(z.ids, LAMBDA i : z.O[i].mark)]

\* a run: [ok, O, C, K, asked, keys]
Run(E, P, R, X, i, on) ==
    IF Off(E[i].dis, on) THEN [ok |-> TRUE, O |-> <<>>, C |-> <<>>, K |-> <<>>, asked |-> <<>>, keys |-> <<>>]
    ELSE LET fd == FoundBy(P, X, EffPatterns(E, i, on), on)
             rs == EffRules(E, R, i, on)
             rules == [k \in 1..Len(rs) |-> R[rs[k]]]
             o == Order(rules)
             f[k \in 0..Len(o.q)] ==
                 IF k = 0 THEN St(fd.C, fd.O) ELSE Step(X, f[k - 1], fd.K, rules[o.q[k]], on).st
             z == f[Len(o.q)]
             asked == SelectSeq(o.q, LAMBDA k : rules[k].cls \notin {"ConflictSolver", "PrivateRemover"} /\ Enabled(rules[k], on))
         IN [ok |-> o.ok, O |-> z.O, C |-> z.C, K |-> fd.K, asked |-> [k \in 1..Len(asked) |-> rules[asked[k]].cls],
             keys |-> EffKeys(E, i, on)]

\* ------------------------------------------------------------------ setup ------
Fresh == [dis |-> "no", pats |-> <<>>, rules |-> <<1, 2>>, kids |-> <<>>, keys |-> <<>>]    \* 1, 2: the default rules
SetUp(E, e) ==
    CASE e.what = "pattern" -> [E EXCEPT ![e.i].pats = @ \o e.ids]
      [] e.what = "rule"    -> [E EXCEPT ![e.i].rules = @ \o e.ids]
      [] e.what = "child"   -> [E EXCEPT ![e.i].kids = @ \o e.ids]
      [] e.what = "key"     -> [E EXCEPT ![e.i].keys = Append(@, [n |-> e.n, id |-> e.ids[1]])]
      [] e.what = "reset"   -> [E EXCEPT ![e.i] = Fresh]
      [] OTHER              -> E                          \* whatever happens to earlier results leaves no trace
=============================================================================
