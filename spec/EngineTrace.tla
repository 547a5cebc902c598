------------------------------- MODULE EngineTrace ------------------------------
(* Recorded lives of real engines against module Engine.  Events:             *)
(*   setup : an engine is configured further (changes E)                      *)
(*   edit  : a caller edits a result of an earlier call (changes nothing)     *)
(*   call  : engine i matches text t with a context; what came out            *)
EXTENDS Engine, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, E
vars == <<si, l, E>>
Init == /\ si \in 1..Len(Sessions) /\ l = 1
        /\ E = Sessions[si].E

Brief(X, O, i) == [s |-> O[i].s, e |-> O[i].e, n |-> O[i].n, val |-> MVal(X, O[i])]
View(X, O, i) == [s |-> O[i].s, e |-> O[i].e, n |-> O[i].n, t |-> O[i].t, priv |-> O[i].priv, mark |-> O[i].mark,
                  val |-> MVal(X, O[i]), raw |-> MRaw(X, O[i]),
                  par |-> IF O[i].par = 0 THEN <<>> ELSE <<Brief(X, O, O[i].par)>>,
                  kids |-> [j \in 1..Len(O[i].kids) |-> Brief(X, O, O[i].kids[j])]]

OnCall(S, e) ==
    LET X == S.X[e.t]
        r == Run(E, S.P[e.t], S.R, X, e.i, e.on)
        got == [i \in 1..Len(r.C) |-> View(X, r.O, r.C[i])]
        marks == [i \in 1..Len(r.K) |-> View(X, r.O, r.K[i])]
    IN IF ~r.ok THEN [c |-> IF e.r.k = "err" THEN "" ELSE "error-expected", x |-> <<>>]
       ELSE IF e.r.k # "ok" THEN [c |-> "outcome", x |-> got]
       ELSE IF e.asked # r.asked THEN [c |-> "rules", x |-> r.asked]
       ELSE IF e.got # got THEN [c |-> "result", x |-> got]
       ELSE IF e.marks # marks THEN [c |-> "markers", x |-> marks]
       ELSE IF RangeOf(e.keys) # RangeOf(r.keys) THEN [c |-> "keys", x |-> r.keys]
       ELSE IF ~e.ctx THEN [c |-> "context", x |-> <<>>]
       ELSE IF ~e.pure THEN [c |-> "caller-objects", x |-> <<>>]
       ELSE IF ~e.input THEN [c |-> "input-string", x |-> <<>>]
       ELSE [c |-> "", x |-> <<>>]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET S == Sessions[si]
           e == S.ev[l]
           v == IF e.op = "call" THEN OnCall(S, e) ELSE [c |-> "", x |-> <<>>]
       IN IF v.c = ""
          THEN /\ l' = l + 1
               /\ E' = IF e.op = "setup" THEN SetUp(E, e) ELSE E
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> S.id, l |-> l, c |-> v.c, x |-> v.x]))
               /\ l' = -l /\ UNCHANGED E
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
