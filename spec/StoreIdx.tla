------------------------------- MODULE StoreIdx -------------------------------
(* The implementation's view of a collection: lazily built indexes kept up to *)
(* date by every edit.  Checked by TLC to refine module Store: an index, once *)
(* built, always holds what a fresh collection would compute, whichever       *)
(* lookup was first used before whichever edit.                               *)
EXTENDS Store, TLC

CONSTANTS MaxLen,      \* largest collection explored
          Reset        \* FALSE: the "identity only" repair, kept to show TLC rejects it

\* objects 1 and 2 are equal but distinct, with different tags
O == <<[s |-> 0, e |-> 2, n |-> "x", t |-> <<"t">>, lit |-> <<>>, fm |-> <<>>, par |-> 0, mark |-> FALSE, priv |-> FALSE],
       [s |-> 0, e |-> 2, n |-> "x", t |-> <<"u">>, lit |-> <<>>, fm |-> <<>>, par |-> 0, mark |-> FALSE, priv |-> FALSE],
       [s |-> 1, e |-> 3, n |-> "y", t |-> <<"t">>, lit |-> <<>>, fm |-> <<>>, par |-> 0, mark |-> FALSE, priv |-> FALSE],
       [s |-> 1, e |-> 2, n |-> "x", t |-> <<>>, lit |-> <<>>, fm |-> <<>>, par |-> 0, mark |-> FALSE, priv |-> FALSE]>>
X == <<>>
Ids == 1..Len(O)
Kinds == {"name", "tag", "start", "end", "index"}

KeysOf(k, m) == CASE k = "name"  -> IF O[m].n = "" THEN {} ELSE {O[m].n}
                  [] k = "tag"   -> RangeOf(O[m].t)
                  [] k = "start" -> {ToString(O[m].s)}
                  [] k = "end"   -> {ToString(O[m].e)}
                  [] k = "index" -> {ToString(p) : p \in O[m].s..(O[m].e - 1)}
AllKeys(k) == UNION {KeysOf(k, m) : m \in Ids}
Entry(k, key, D) == Keep(D, LAMBDA m : key \in KeysOf(k, m))
Fresh(k, D) == [key \in AllKeys(k) |-> Entry(k, key, D)]

VARIABLES C,        \* the matches held
          built,    \* kinds of index built so far
          I,        \* I[k] : the index (meaningful when built)
          maxend
vars == <<C, built, I, maxend>>

Nothing == [k \in Kinds |-> [key \in AllKeys(k) |-> <<>>]]
Ends(D) == SetMax({0} \cup {O[D[i]].e : i \in 1..Len(D)})

Init == /\ C = <<>>
        /\ built = {}
        /\ I = Nothing
        /\ maxend = 0

Add(J, b, m) == [k \in Kinds |-> [key \in AllKeys(k) |->
                    IF k \in b /\ key \in KeysOf(k, m) THEN Append(J[k][key], m) ELSE J[k][key]]]
DropFirst(s, m) == LET P == {i \in 1..Len(s) : s[i] = m} IN IF P = {} THEN s ELSE Without(s, SetMin(P))
Drop(J, b, m) == [k \in Kinds |-> [key \in AllKeys(k) |->
                    IF k \in b /\ key \in KeysOf(k, m) THEN DropFirst(J[k][key], m) ELSE J[k][key]]]

\* a lookup builds the index it needs
Build(J, b, T) == [k \in Kinds |-> IF k \in T \ b THEN Fresh(k, C) ELSE J[k]]

AppendM(m) == /\ C' = Append(C, m)
              /\ I' = Add(I, built, m)
              /\ maxend' = MaxOf(maxend, O[m].e)
              /\ UNCHANGED built

ResetTo(D) == /\ C' = D /\ built' = {} /\ I' = Nothing /\ maxend' = Ends(D)

InsertM(i, m) == IF i >= Len(C) THEN AppendM(m) ELSE ResetTo(InsertAt(C, i, m))

SetM(i, m) == ResetTo([C EXCEPT ![i] = m])

DelM(i) ==
    LET m == C[i]
        D == Without(C, i)
    IN IF Reset /\ \E k \in 1..Len(D) : D[k] = m THEN ResetTo(D)
       ELSE /\ C' = D
            /\ I' = Drop(I, built, m)
            /\ maxend' = IF O[m].e >= maxend THEN Ends(D) ELSE maxend
            /\ UNCHANGED built

RemoveM(m) == LET i == FirstEq(O, X, C, m) IN i > 0 /\ DelM(i)

ReverseM == ResetTo(Rev(C))

Touch(k) == /\ k \notin built
            /\ built' = built \cup {k}
            /\ I' = Build(I, built, {k})
            /\ UNCHANGED <<C, maxend>>

Next == \/ \E k \in Kinds : Touch(k)
        \/ \E m \in Ids : Len(C) < MaxLen /\ AppendM(m)
        \/ \E m \in Ids, i \in 0..Len(C) : Len(C) < MaxLen /\ InsertM(i, m)
        \/ \E m \in Ids, i \in 1..Len(C) : SetM(i, m)
        \/ \E i \in 1..Len(C) : DelM(i)
        \/ \E m \in Ids : RemoveM(m)
        \/ C # <<>> /\ ReverseM

Spec == Init /\ [][Next]_vars

Coherent == \A k \in built : I[k] = Fresh(k, C)
MaxOK == maxend = Ends(C)
=============================================================================
