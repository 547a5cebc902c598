------------------------------- MODULE ChainTrace -------------------------------
(* Recorded searches of real chains against module Chain.  Event:             *)
(*   found : everything emitted, with children, parents and values            *)
EXTENDS Chain, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l
vars == <<si, l>>
Init == /\ si \in 1..Len(Sessions) /\ l = 1

Brief(X, O, i) == [s |-> O[i].s, e |-> O[i].e, n |-> O[i].n, val |-> MVal(X, O[i])]
Kid(X, O, i) == [s |-> O[i].s, e |-> O[i].e, n |-> O[i].n, t |-> O[i].t, val |-> MVal(X, O[i]), raw |-> MRaw(X, O[i]),
                 par |-> IF O[i].par = 0 THEN <<>> ELSE <<Brief(X, O, O[i].par)>>,
                 kids |-> [j \in 1..Len(O[i].kids) |-> Brief(X, O, O[i].kids[j])]]
View(X, O, i) == [s |-> O[i].s, e |-> O[i].e, n |-> O[i].n, t |-> O[i].t, priv |-> O[i].priv, mark |-> O[i].mark,
                  val |-> MVal(X, O[i]), raw |-> MRaw(X, O[i]),
                  par |-> IF O[i].par = 0 THEN <<>> ELSE <<Brief(X, O, O[i].par)>>,
                  kids |-> [j \in 1..Len(O[i].kids) |-> Kid(X, O, O[i].kids[j])]]

Expected(S) == LET r == Find(S.p, S.X, 0, <<>>)
               IN [i \in 1..Len(r.outs) |-> View(S.X, r.O, r.outs[i])]

OnFound(S, e) ==
    LET x == Expected(S)
        plain == Keep(x, LAMBDA m : ~m.mark)
        marks == Keep(x, LAMBDA m : m.mark)
    IN IF e.r.k = "hang" THEN [c |-> "no-end", x |-> x]
       ELSE IF e.r.k # "ok" THEN [c |-> "outcome", x |-> x]
       ELSE IF S.via = "direct" THEN [c |-> IF e.got = x THEN "" ELSE "emitted", x |-> x]
       ELSE IF e.got # plain THEN [c |-> "emitted", x |-> plain]
       ELSE IF e.marks # marks THEN [c |-> "markers", x |-> marks]
       ELSE [c |-> "", x |-> <<>>]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET S == Sessions[si]
           v == OnFound(S, S.ev[l])
       IN IF v.c = "" THEN l' = l + 1
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> S.id, l |-> l, c |-> v.c, x |-> v.x]))
               /\ l' = -l
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
