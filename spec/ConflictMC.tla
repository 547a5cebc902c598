------------------------------- MODULE ConflictMC -------------------------------
(* The laws of conflict solving, on every collection of at most MaxLen        *)
(* matches, private or public, equal ones included, over N positions.         *)
EXTENDS Conflict, TLC
CONSTANTS N, MaxLen, Solvers, Defaults

Spans == {sp \in (0..N) \X (0..N) : sp[1] < sp[2]}
VARIABLES O, D                                    \* D: the default solver in use
Ob(sp, pr, sv) == [s |-> sp[1], e |-> sp[2], n |-> "", t |-> <<>>, lit |-> <<>>, fm |-> <<>>, par |-> 0,
                   mark |-> FALSE, priv |-> pr, sv |-> sv]
Init == O = <<>> /\ D \in Defaults
Next == /\ Len(O) < MaxLen /\ UNCHANGED D
        /\ \E sp \in Spans, pr \in BOOLEAN, sv \in Solvers : O' = Append(O, Ob(sp, pr, sv))
Spec == Init /\ [][Next]_<<O, D>>

X == <<>>
C == [i \in 1..Len(O) |-> i]
Gone == Settle(O, X, C, D)
Overlap(a, b) == O[a].s < O[b].e /\ O[b].s < O[a].e
Longer(a, b) == LenOf(O, a) > LenOf(O, b)
AllDefault == \A i \in 1..Len(O) : O[i].sv \in {"", "default"}

\* by default: out exactly when a strictly longer public match shares a position
DefaultLaw == (AllDefault /\ D = "") =>
    /\ \A m \in 1..Len(O) : (m \in Gone) <=> (~O[m].priv /\ \E c \in 1..Len(O) : ~O[c].priv /\ Overlap(m, c) /\ Longer(c, m))
    /\ \A a, b \in (1..Len(O)) \ Gone : (~O[a].priv /\ ~O[b].priv /\ Overlap(a, b)) => LenOf(O, a) = LenOf(O, b)
\* whatever the solvers: private matches take no part, matches in no conflict
\* stay, and something removed was in conflict with something public
AlwaysLaw ==
    \A m \in Gone : ~O[m].priv /\ \E c \in 1..Len(O) : ~O[c].priv /\ c # m /\ Overlap(m, c)
\* a default solver that keeps both leaves everything where no match has a solver of its own
KeepLaw == (AllDefault /\ D \in {"keep", "default"}) => Gone = {}
\* a pair alone is settled as documented
PairLaw == (Len(O) = 2 /\ ~O[1].priv /\ ~O[2].priv /\ Overlap(1, 2) /\ ~EqM(O, X, 1, 2)) =>
    LET m == IF LenOf(O, 1) <= LenOf(O, 2) THEN 1 ELSE 2        \* taken up first
        c == 3 - m
        dec == Decide(O, m, c, D)
        rev == Decide(O, c, m, D)
    IN Gone = (IF dec \in {1, 2} THEN {dec} ELSE IF rev \in {1, 2} THEN {rev} ELSE {})
=============================================================================
