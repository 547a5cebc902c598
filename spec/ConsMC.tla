--------------------------------- MODULE ConsMC ---------------------------------
(* Laws of the consequences: every state reachable by up to Depth consequences*)
(* over a small table with equal-but-distinct matches.                        *)
EXTENDS Rules, TLC
CONSTANT Depth

Ob(s, e, n) == [s |-> s, e |-> e, n |-> n, t |-> <<"t">>, lit |-> <<>>, fm |-> <<>>, par |-> 0, mark |-> FALSE,
                priv |-> FALSE, sv |-> ""]
O0 == <<Ob(0, 2, "x"), Ob(0, 2, "x"), Ob(0, 2, "y"), Ob(2, 3, "x")>>
X == <<>>
VARIABLES st, d, last
vars == <<st, d, last>>
Init == /\ st \in {St(<<1, 4>>, O0), St(<<3, 1>>, O0), St(<<>>, O0), St(<<1, 2, 3>>, O0), St(<<2, 1>>, O0)}
        /\ d = 0
        /\ last = [k |-> "", ms |-> <<>>, from |-> st]
Cons == {[k |-> "remove", name |-> "", tags |-> <<>>], [k |-> "append", name |-> "", tags |-> <<>>],
         [k |-> "append", name |-> "y", tags |-> <<>>], [k |-> "rename", name |-> "y", tags |-> <<>>],
         [k |-> "tag", name |-> "", tags |-> <<"u">>], [k |-> "untag", name |-> "", tags |-> <<"t">>]}
Ms == {<<a>> : a \in 1..4} \cup {<<a, b>> : a \in 1..4, b \in 1..4}
Next == /\ d < Depth /\ d' = d + 1
        /\ \E c \in Cons, ms \in Ms :
             /\ st' = Apply(X, st, c, ms)
             /\ last' = [k |-> c.k, ms |-> ms, from |-> st]
Spec == Init /\ [][Next]_vars

NoTwin(s) == \A i, j \in 1..Len(s.C) : i # j => ~EqM(s.O, X, s.C[i], s.C[j])
\* designated matches, once each, all of them held by the collection
Plain == /\ \A i, j \in 1..Len(last.ms) : i # j => last.ms[i] # last.ms[j]
         /\ \A m \in RangeOf(last.ms) : Held(last.from.C, m)
\* attributes change on designated matches only
OthersUntouched == \A m \in 1..4 : m \notin RangeOf(last.ms) => st.O[m] = last.from.O[m]
\* removing takes out the designated ones when they are there
RemovesThem == last.k = "remove" /\ Plain /\ NoTwin([C |-> Dedup(last.from.C), O |-> last.from.O]) => \A m \in RangeOf(last.ms) :
    Cardinality({i \in 1..Len(last.from.C) : last.from.C[i] = m}) = 1 => ~Held(st.C, m)
\* with equal twins about, the very one designated still goes
RemovesTheVeryOne == last.k = "remove" /\ Plain /\ Len(last.ms) = 1 /\ Len(last.from.C) = Len(Dedup(last.from.C))
                     => ~Held(st.C, last.ms[1]) /\ Len(st.C) = Len(last.from.C) - 1
\* no consequence creates two equal matches
NoNewTwins == NoTwin(last.from) => NoTwin(st)
\* others are neither added, nor removed, nor moved
OthersStay == LET out(s) == Keep(s.C, LAMBDA m : m \notin RangeOf(last.ms))
              IN Plain => out(st) = out(last.from)
\* absent matches without an equal one are left alone
AbsentLeftAlone == last.k = "remove" /\ (\A m \in RangeOf(last.ms) : FirstEq(last.from.O, X, last.from.C, m) = 0)
                   => st = last.from
=============================================================================
