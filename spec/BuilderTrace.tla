------------------------------ MODULE BuilderTrace ------------------------------
(* Recorded declarations on real builders against module Builder.  Events:    *)
(*   defaults / keys / build / reset / close / repeat / hide : a declaration, *)
(*           its outcome, and to: the builder it leaves its caller on         *)
(*   found : everything engine b finds in the text, and what reading by key   *)
(*           gives; pure: the objects the caller passed are as they were      *)
EXTENDS Builder, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, S
vars == <<si, l, S>>
Init == /\ si \in 1..Len(Sessions) /\ l = 1
        /\ S = [B |-> [i \in 1..Sessions[si].n |-> NoDefaults], T |-> <<>>, roots |-> [i \in 1..Sessions[si].n |-> <<>>]]

Brief(X, O, i) == [s |-> O[i].s, e |-> O[i].e, n |-> O[i].n, val |-> MVal(X, O[i])]
View(X, O, i) == [s |-> O[i].s, e |-> O[i].e, n |-> O[i].n, t |-> O[i].t, priv |-> O[i].priv, mark |-> O[i].mark,
                  val |-> MVal(X, O[i]), raw |-> MRaw(X, O[i]),
                  par |-> IF O[i].par = 0 THEN <<>> ELSE <<Brief(X, O, O[i].par)>>,
                  kids |-> [j \in 1..Len(O[i].kids) |-> Brief(X, O, O[i].kids[j])]]

OnFound(X, e) ==
    LET r == FoundIn(S, X, e.b)
        got == [i \in 1..Len(r.C) |-> View(X, r.O, r.C[i])]
        marks == [i \in 1..Len(r.K) |-> View(X, r.O, r.K[i])]
        vals(n) == LET q == SelectSeq(got, LAMBDA m : m.n = n) IN [i \in 1..Len(q) |-> q[i].val]
        reads == [i \in 1..Len(e.reads) |-> LET v == vals(e.reads[i].n)
                                            IN [n |-> e.reads[i].n, one |-> Cut(v, 0, MinOf(1, Len(v))), all |-> v]]
    IN IF e.r.k # "ok" THEN [c |-> "outcome", x |-> got]
       ELSE IF e.got # got THEN [c |-> "options", x |-> got]
       ELSE IF e.marks # marks THEN [c |-> "markers", x |-> marks]
       ELSE IF e.reads # reads THEN [c |-> "by-key", x |-> reads]
       ELSE IF ~e.pure THEN [c |-> "caller-objects", x |-> <<>>]
       ELSE [c |-> "", x |-> <<>>]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET e == Sessions[si].ev[l]
           b == IF e.op = "build" THEN Built(S, e) ELSE [ok |-> TRUE, st |-> Declared2(S, e)]
           v == IF e.op = "found" THEN OnFound(Sessions[si].X, e)
                ELSE [c |-> IF (e.r.k = "ok") # b.ok THEN "declaration"
                            ELSE IF b.ok /\ e.to # Leaves(S, e) THEN "leaves" ELSE "", x |-> <<Leaves(S, e)>>]
       IN IF v.c = "" THEN l' = l + 1 /\ S' = b.st
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> Sessions[si].id, l |-> l, c |-> v.c, x |-> v.x]))
               /\ l' = -l /\ UNCHANGED S
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
