-------------------------------- MODULE RulesMC --------------------------------
(* The order of rules, for every set of at most MaxRules registered rules:    *)
(* classes, priorities and dependency graphs.                                 *)
EXTENDS Rules, TLC
CONSTANTS MaxRules, Classes, Priorities

Rank == [c \in {"A", "B", "C", "D"} |-> CASE c = "A" -> 1 [] c = "B" -> 2 [] c = "C" -> 3 [] OTHER -> 4]
VARIABLE R
Init == R = <<>>
Rule(c, p, d) == [cls |-> c, prio |-> p, deps |-> d]
Next == /\ Len(R) < MaxRules
        /\ \E c \in Classes, p \in Priorities, D \in SUBSET Classes :
              R' = Append(R, Rule(c, p, LET S == D IN
                    [k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : Rank[y] < Rank[x]}) = k - 1]))
Spec == Init /\ [][Next]_R

Pos(q, i) == CHOOSE k \in 1..Len(q) : q[k] = i
Reach(G, i) ==      \* everything i depends on, through rules of the group
    LET f[k \in 0..Cardinality(G)] == IF k = 0 THEN Before(R, G, i)
                                      ELSE f[k - 1] \cup UNION {Before(R, G, j) : j \in f[k - 1]}
    IN f[Cardinality(G)]
Cyclic == \E p \in Prios(R) : LET G == Group(R, p) IN \E i \in G : i \in Reach(G, i)
Dups == \E p \in Prios(R) : DuplicateIn(R, Group(R, p))

OrderLaw ==
    LET o == Order(R)
    IN /\ o.ok <=> (~Cyclic /\ ~Dups)
       /\ \A a, b \in 1..Len(o.q) : a # b => o.q[a] # o.q[b]                              \* once each
       /\ o.ok => Len(o.q) = Len(R)                                                       \* and all
       /\ o.ok => \A i, j \in 1..Len(R) : R[i].prio > R[j].prio => Pos(o.q, i) < Pos(o.q, j)
       /\ o.ok => \A i \in 1..Len(R) : \A j \in Reach(Group(R, R[i].prio), i) : Pos(o.q, j) < Pos(o.q, i)
       /\ o.ok => \A i, j \in 1..Len(R) :                                                 \* no dependency: registration
             (i < j /\ R[i].prio = R[j].prio /\ Before(R, Group(R, R[i].prio), i) = {}
              /\ Before(R, Group(R, R[i].prio), j) = {}) => Pos(o.q, i) < Pos(o.q, j)
=============================================================================
