------------------------------ MODULE IntrospectMC -----------------------------
(* The promise of introspection, over every small pattern: each name a public *)
(* match may carry is described; what is described can be produced.           *)
EXTENDS Introspect
CONSTANTS Big

X == <<"a">>
Base == [kind |-> "string", name |-> "", tags |-> <<>>, priv |-> FALSE, mark |-> FALSE, children |-> FALSE, every |-> FALSE,
         pparent |-> FALSE, pchildren |-> FALSE, pnames |-> <<>>, inames |-> <<>>, fall |-> FALSE, vall |-> FALSE, fm |-> <<>>,
         va |-> <<>>, vd |-> <<>>, pre |-> "", post |-> "", pp |-> "", ic |-> FALSE, srcs |-> <<<<"a">>>>, occ |-> <<>>,
         gn |-> <<>>, rets |-> <<>>, pid |-> 1, props |-> <<>>]
\* one letter, captured by each group
Occ(g) == <<[s |-> 0, e |-> 1, g |-> [i \in 1..Len(g) |-> <<<<0, 1>>>>]]>>
Re(g) == [Base EXCEPT !.kind = "re", !.gn = <<g>>, !.occ = <<<<Occ(g)>>, <<<<>>>>>>]
Func == [Base EXCEPT !.kind = "func", !.rets = <<<<<<[s |-> 0, e |-> 1, o |-> <<>>]>>>>, <<<<>>>>>>]
Bodies == {Base, Func} \cup {Re(g) : g \in {<<>>, <<"">>, <<"x">>, <<"x", "y">>, <<"n">>}}
Literals == {<<>>, <<[k |-> "*", v |-> <<"v">>]>>, <<[k |-> "x", v |-> <<"v">>]>>,
             <<[k |-> "__children__", v |-> <<"v">>], [k |-> "n", v |-> <<>>]>>}
SomeNames == {<<>>, <<"n">>, <<"x">>, <<"n", "x">>}

VARIABLES p, in, stage
vars == <<p, in, stage>>
Init == /\ p \in Bodies /\ in = <<>> /\ stage = 0
Roles == /\ stage \in {0, 4} /\ stage' = stage + 1 /\ UNCHANGED in
         /\ \E n \in {"", "n"}, c \in BOOLEAN, ev \in BOOLEAN, pp \in BOOLEAN, pc \in BOOLEAN :
            p' = [p EXCEPT !.name = n, !.children = c, !.every = ev, !.pparent = pp, !.pchildren = pc]
Names == /\ stage \in {1, 5} /\ stage' = stage + 1 /\ UNCHANGED in
         /\ \E pn \in SomeNames, ig \in IF Big THEN SomeNames ELSE {<<>>, <<"n">>}, pr \in BOOLEAN, mk \in BOOLEAN, va \in Literals :
            /\ stage = 5 => (~pr /\ ~mk /\ va = <<>> /\ ig = <<>>)
            /\ (stage = 1 /\ ~Big) => (~mk \/ ~pr)
            /\ p' = [p EXCEPT !.pnames = pn, !.inames = ig, !.priv = pr, !.mark = mk, !.va = va]
\* the pattern becomes the first part of a chain
Wrap == /\ stage = 2 /\ stage' = 4 /\ in' = <<p>>
        /\ ((Big /\ p.inames = <<>> /\ ~p.every) \/ (p.inames = <<>> /\ ~p.every /\ ~p.pparent /\ (p.va = <<>> \/ p.name = "")))
        /\ \E hid \in BOOLEAN :
           p' = [Base EXCEPT !.kind = "chain", !.pid = 9] @@ [brk |-> [k |-> "", a |-> <<>>],
                 parts |-> <<[p |-> p, lo |-> 1, hi |-> 1, hid |-> hid]>>]
Next == Roles \/ Names \/ Wrap
Spec == Init /\ [][Next]_vars

Ready == stage \in {2, 6}
F == FindAlone(p, X, <<>>)
Shown == {i \in RangeOf(F.outs) : ~F.O[i].priv /\ ~F.O[i].mark /\ F.O[i].n # ""}
D == Describe(p)
Complete == (Ready /\ Foreseeable(p) /\ Open(p)) => \A i \in Shown : F.O[i].n \in NamesOf(D)
Silent == (Ready /\ p.kind # "chain" /\ ~Open(p)) => Shown = {}
\* nothing is described that configuration makes impossible
Possible == Ready => NamesOf(D) \ ({""} \cup {p.va[k].k : k \in 1..Len(p.va)})
                    \subseteq (Producible(p) \cup (IF in = <<>> THEN {} ELSE {in[1].va[k].k : k \in 1..Len(in[1].va)}))
\* a name with a literal value of its own holds no other
Literal == Ready => \A k \in 1..Len(p.va) : p.va[k].v # <<>> /\ p.va[k].k \in NamesOf(D) =>
               \E j \in 1..Len(D) : D[j].n = p.va[k].k /\ D[j].v = <<p.va[k].v>>
Once == Ready => \A j, k \in 1..Len(D) : D[j].n = D[k].n => j = k
\* the values described are those matches take, when one is known
Valued == (Ready /\ Foreseeable(p) /\ Open(p) /\ p.kind = "string") =>
    \A i \in Shown : \E j \in 1..Len(D) : D[j].n = F.O[i].n /\ \E v \in RangeOf(D[j].v) : v = MVal(X, F.O[i])
=============================================================================
