-------------------------------- MODULE StoreGen --------------------------------
(* Behaviours of module Store, generated to be stepped through the real code: *)
(* every history of Depth edits of small collections, each edit preceded by   *)
(* the lookups that make the implementation build a chosen set of indexes.    *)
EXTENDS StoreIdx, Json

CONSTANT Depth
VARIABLE hist
gvars == <<C, built, I, maxend, hist>>

Touches == {<<>>, <<"name">>, <<"tag">>, <<"start">>, <<"end">>, <<"index">>, <<"name", "tag", "start", "end", "index">>}

GInit == /\ C \in {<<1, 2>>, <<1, 3, 2>>, <<2, 1, 1>>, <<4, 3>>}
         /\ built = {} /\ I = Nothing /\ maxend = 0
         /\ hist = <<[op |-> "none", a |-> <<>>, m |-> C, touch |-> <<>>, after |-> C, k |-> "ok"]>>

Events ==
    LET n == Len(C)
        ev(op, a, m) == [op |-> op, a |-> a, m |-> m]
    IN {ev("append", <<>>, <<m>>) : m \in Ids}
       \cup {ev("insert", <<i>>, <<m>>) : i \in 0..MaxOf(0, n - 1), m \in {1, 3}}
       \cup {ev("setitem", <<i>>, <<m>>) : i \in (0..n) \cup {-1}, m \in {2, 3}}
       \cup {ev("delitem", <<i>>, <<>>) : i \in (0..n) \cup {-1}}
       \cup {ev("remove", <<>>, <<m>>) : m \in Ids}
       \cup {ev("setslice", <<0, 2, 1>>, <<3, 1>>), ev("delslice", <<1, NONE, 1>>, <<>>),
             ev("reverse", <<>>, <<>>), ev("keepslice", <<0, 2, 1>>, <<>>), ev("clear", <<>>, <<>>), ev("pop", <<-1>>, <<>>),
             ev("extself", <<>>, <<>>), ev("iadd", <<>>, <<2, 4>>)}

GNext == /\ Len(hist) <= Depth
         /\ \E e \in Events, T \in (IF Len(hist) = 1 THEN Touches ELSE {<<>>, <<"name", "tag", "start", "end", "index">>}) :
               LET x == Edit(O, X, C, e)
               IN /\ C' = x.C
                  /\ hist' = Append(hist, [op |-> e.op, a |-> e.a, m |-> e.m, touch |-> T,
                                           after |-> x.C, k |-> x.r.k])
         /\ UNCHANGED <<built, I, maxend>>

GSpec == GInit /\ [][GNext]_gvars
\* printed once per complete history
Emit == Len(hist) <= Depth \/ PrintT("@@H " \o ToJson(hist))
=============================================================================
