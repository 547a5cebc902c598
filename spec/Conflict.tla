-------------------------------- MODULE Conflict --------------------------------
(* Conflicts between overlapping matches (rebulk.processors).                 *)
(* Objects carry, besides the fields of Store, sv: the kind of conflict       *)
(* solver attached to the match:                                              *)
(*   "" none, "default" answers '__default__', "self" drops the owner,        *)
(*   "other" drops the other match, "keep" keeps both, "long" drops the       *)
(*   longer of the two (the owner when equal)                                 *)
EXTENDS Store

LenOf(O, i) == O[i].e - O[i].s
RECURSIVE Initiator(_, _)
Initiator(O, i) == IF O[i].par = 0 THEN i ELSE Initiator(O, O[i].par)
Weight(O, i) == LenOf(O, Initiator(O, i))

\* answer of a solver of kind sv, owned by `own`, about the pair: 0 keeps both, -1 falls through
AnswerOf(O, sv, own, oth) ==
    CASE sv = "self"  -> own
      [] sv = "other" -> oth
      [] sv = "keep"  -> 0
      [] sv = "long"  -> IF LenOf(O, oth) > LenOf(O, own) THEN oth ELSE own
      [] OTHER               -> -1

Answer(O, own, oth) == AnswerOf(O, O[own].sv, own, oth)

\* D: the default solver, "" that of the library; it is asked about the match and the other
DefaultAnswer(O, m, c, D) ==
    IF D # "" THEN MaxOf(0, AnswerOf(O, D, m, c))
    ELSE  IF Weight(O, c) < Weight(O, m) THEN c
                               ELSE IF Weight(O, m) < Weight(O, c) THEN m ELSE 0

\* the solver of the other match, then the one of the match, then the default
Decide(O, m, c, D) == LET a == Answer(O, c, m) IN
                   IF a # -1 THEN a
                   ELSE LET b == Answer(O, m, c) IN IF b # -1 THEN b ELSE DefaultAnswer(O, m, c, D)

ByLen(O, s) == StableSort(s, LAMBDA a, b : LenOf(O, a) < LenOf(O, b))
Public(O, s) == Keep(s, LAMBDA m : ~O[m].priv)

\* the pairs considered, shorter matches first, shorter opponents first
Pairs(O, X, C) ==
    LET pub == ByLen(O, Public(O, C))
        opp(m) == ByLen(O, Conflicting(O, X, Public(O, C), m).v)
    IN Flat([i \in 1..Len(pub) |-> LET q == opp(pub[i]) IN [j \in 1..Len(q) |-> <<pub[i], q[j]>>]])

\* matches removed: one side of a pair goes unless either side is already out
Settle(O, X, C, D) ==
    LET ps == Pairs(O, X, C)
        f[k \in 0..Len(ps)] ==
            IF k = 0 THEN {}
            ELSE LET gone == f[k - 1]
                     m == ps[k][1]
                     c == ps[k][2]
                     a == Decide(O, m, c, D)
                 IN IF a \in {m, c} /\ m \notin gone /\ c \notin gone THEN gone \cup {a} ELSE gone
    IN f[Len(ps)]
=============================================================================
