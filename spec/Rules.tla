--------------------------------- MODULE Rules ---------------------------------
(* The rule engine (rebulk.rules): order of execution, triggering, and the    *)
(* consequences.  State of a run: C (matches), O (object table: names and     *)
(* tags change), with the markers K untouched.                                *)
(*                                                                            *)
(* A registered rule: [cls, prio, deps, on, sel, arg, one, cons]              *)
(*   cls  : class name;  deps : class names it depends on                     *)
(*   on   : "yes" | "no" | "ctx" (enabled when the context says so)           *)
(*   sel/arg : what `when` answers;  one : answers a single match             *)
(*   sets : "" or what it sets the context to ("on", "off") when asked        *)
(*   cons : consequences, each [k, arg] - several are paired with the answer  *)
EXTENDS Conflict

\* ------------------------------------------------------------------ order ----
Prios(R) == {R[i].prio : i \in 1..Len(R)}
RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>> ELSE LET x == SetMax(S) IN <<x>> \o Desc(S \ {x})

Group(R, p) == {i \in 1..Len(R) : R[i].prio = p}
DuplicateIn(R, G) == \E i, j \in G : i # j /\ R[i].cls = R[j].cls
\* who must come before i within its group
Before(R, G, i) == {j \in G : j # i /\ \E k \in 1..Len(R[i].deps) : R[i].deps[k] = R[j].cls}

\* layers of a group: each time every rule whose dependencies are all done;
\* ok = FALSE when a cycle remains
RECURSIVE Layers(_, _, _)
Layers(R, G, todo) ==
    IF todo = {} THEN [ok |-> TRUE, q |-> <<>>]
    ELSE LET ready == {i \in todo : Before(R, G, i) \cap todo = {}}
         IN IF ready = {} THEN [ok |-> FALSE, q |-> <<>>]
            ELSE LET r == Layers(R, G, todo \ ready)
                 IN [ok |-> r.ok, q |-> SeqOfSet(ready) \o r.q]     \* registration order within a layer

GroupOrder(R, p) == LET G == Group(R, p)
                    IN IF DuplicateIn(R, G) THEN [ok |-> FALSE, q |-> <<>>] ELSE Layers(R, G, G)

\* the whole run: [ok, q] - q stops where an error is reported
Order(R) ==
    LET ps == Desc(Prios(R))
        f[k \in 0..Len(ps)] ==
            IF k = 0 THEN [ok |-> TRUE, q |-> <<>>]
            ELSE LET h == f[k - 1] IN
                 IF ~h.ok THEN h
                 ELSE LET g == GroupOrder(R, ps[k]) IN [ok |-> g.ok, q |-> h.q \o g.q]
    IN f[Len(ps)]

\* ----------------------------------------------------------- consequences ----
\* a state of the run: [C, O];  all act on the very objects designated
St(C, O) == [C |-> C, O |-> O]
Held(C, m) == \E i \in 1..Len(C) : C[i] = m

\* position to remove for m: the object itself, else the first equal one
RemovePos(X, st, m) ==
    LET I == {i \in 1..Len(st.C) : st.C[i] = m}
    IN IF I # {} THEN SetMin(I) ELSE FirstEq(st.O, X, st.C, m)

\* remove the designated matches one by one; got: those that were there
RemoveAll(X, st0, ms) ==
    LET f[k \in 0..Len(ms)] ==
            IF k = 0 THEN [st |-> st0, got |-> <<>>]
            ELSE LET p == f[k - 1]
                     i == RemovePos(X, p.st, ms[k])
                 IN IF i = 0 THEN p
                    ELSE [st |-> St(Without(p.st.C, i), p.st.O), got |-> Append(p.got, ms[k])]
    IN f[Len(ms)]

AppendAll(X, st0, ms, name) ==
    LET f[k \in 0..Len(ms)] ==
            IF k = 0 THEN st0
            ELSE LET p == f[k - 1]
                     O1 == IF name = "" THEN p.O ELSE [p.O EXCEPT ![ms[k]].n = name]
                 IN IF Held(p.C, ms[k]) THEN p
                    ELSE IF FirstEq(O1, X, p.C, ms[k]) # 0 THEN St(p.C, O1)
                    ELSE St(Append(p.C, ms[k]), O1)
    IN f[Len(ms)]

RECURSIVE DropTags(_, _)
DropTags(t, gone) ==
    IF gone = <<>> THEN t
    ELSE LET I == {i \in 1..Len(t) : t[i] = Head(gone)}
         IN DropTags(IF I = {} THEN t ELSE Without(t, SetMin(I)), Tail(gone))

ForEach(O, ms, Change(_)) ==
    LET f[k \in 0..Len(ms)] == IF k = 0 THEN O ELSE [f[k - 1] EXCEPT ![ms[k]] = Change(@)]
    IN f[Len(ms)]

\* c : [k, name, tags];  ms : the designated matches
Apply(X, st, c, ms) ==
    CASE c.k = "remove" -> RemoveAll(X, st, ms).st
      [] c.k = "append" -> AppendAll(X, st, ms, c.name)
      [] c.k = "rename" -> LET r == RemoveAll(X, st, ms)
                               O1 == ForEach(r.st.O, r.got, LAMBDA o : [o EXCEPT !.n = c.name])
                           IN AppendAll(X, St(r.st.C, O1), r.got, "")
      [] c.k = "tag"    -> LET r == RemoveAll(X, st, ms)
                               O1 == ForEach(r.st.O, r.got, LAMBDA o : [o EXCEPT !.t = @ \o c.tags])
                           IN AppendAll(X, St(r.st.C, O1), r.got, "")
      [] c.k = "untag"  -> LET r == RemoveAll(X, st, ms)
                               O1 == ForEach(r.st.O, r.got, LAMBDA o : [o EXCEPT !.t = DropTags(@, c.tags)])
                           IN AppendAll(X, St(r.st.C, O1), r.got, "")
      [] OTHER          -> st                                    \* "none": an action of the user's that changes nothing

\* ------------------------------------------------------------- conditions ----
\* the matches a rule designates in the current state
Select(O, X, C, K, rule) ==
    CASE rule.sel = "named"   -> Named(O, C, rule.arg[1])
      [] rule.sel = "tagged"  -> Dedup(Tagged(O, C, rule.arg[1]))
      [] rule.sel = "all"     -> C
      [] rule.sel = "private" -> Keep(C, LAMBDA m : O[m].priv)
      [] rule.sel = "sorted"  -> Sorted(O, C)
      [] rule.sel = "ids"     -> rule.ids
      [] rule.sel = "start"   -> Starting(O, C, rule.at)
      [] rule.sel = "index"   -> AtIndex(O, C, rule.at)
      [] rule.sel = "over"    -> IF K = <<>> THEN <<>> ELSE AtSpan(O, X, C, O[K[1]].s, O[K[1]].e)
      [] OTHER                -> <<>>

Answered(O, X, C, K, rule) == LET s == Select(O, X, C, K, rule)
                           IN IF rule.one /\ Len(s) > 0 THEN <<s[1]>> ELSE s

\* a list of consequences is paired with the elements of the answer
ActOn(X, st, rule, ms) ==
    IF Len(rule.cons) = 1 /\ ~rule.multi THEN Apply(X, st, rule.cons[1], ms)
    ELSE LET f[k \in 0..Len(rule.cons)] ==
                 IF k = 0 THEN st ELSE Apply(X, f[k - 1], rule.cons[k], <<ms[k]>>)
         IN f[Len(rule.cons)]

Enabled(rule, ctx) == rule.on = "yes" \/ (rule.on = "ctx" /\ ctx)

\* what the context says once a rule was asked
After(rule, ctx) == IF Enabled(rule, ctx) /\ rule.sets # "" THEN rule.sets = "on" ELSE ctx

\* built-in rules: "Conflict" and "Private" (cls)
Step(X, st, K, rule, ctx) ==
    IF rule.cls = "ConflictSolver"
    THEN LET gone == Settle(st.O, X, st.C, IF rule.arg = <<>> THEN "" ELSE rule.arg[1])
         IN [st |-> St(Keep(st.C, LAMBDA m : m \notin gone), st.O), ms |-> SeqOfSet(gone)]
    ELSE IF rule.cls = "PrivateRemover"
    THEN [st |-> St(Public(st.O, st.C), st.O), ms |-> Keep(st.C, LAMBDA m : st.O[m].priv)]
    ELSE LET ms == IF Enabled(rule, ctx) THEN Answered(st.O, X, st.C, K, rule) ELSE <<>>
         IN IF ms = <<>> THEN [st |-> st, ms |-> <<>>] ELSE [st |-> ActOn(X, st, rule, ms), ms |-> ms]
=============================================================================
