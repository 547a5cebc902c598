------------------------------ MODULE ProjectTrace ------------------------------
(* Recorded readings of real collections against module Project.              *)
(* State: O the matches, C the collection (numbers of matches), K the         *)
(* declared keys.  Events:                                                    *)
(*   put / del / set / keep / value / keys : the collection is changed        *)
(*   dict / key / to / check        : it is read                              *)
(*   run : an engine is run with the check of declared keys                   *)
EXTENDS Project, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, O, C, K
vars == <<si, l, O, C, K>>
Init == /\ si \in 1..Len(Sessions) /\ l = 1
        /\ O = Sessions[si].O /\ C = Sessions[si].C /\ K = <<>>

Ms == [i \in 1..Len(C) |-> O[C[i]] @@ [id |-> C[i]]]
Ids(q) == [i \in 1..Len(q) |-> q[i].id]

OnDict(e) ==
    LET d == IF e.details THEN LET q == ToDictDetails(Ms, e.first, e.enforce)
                               IN [i \in 1..Len(q) |-> [n |-> q[i].n, l |-> q[i].l, x |-> Ids(q[i].x)]]
             ELSE ToDict(Ms, e.first, e.enforce)
        a == LET q == AllOf(Ms) IN [i \in 1..Len(q) |-> [n |-> q[i].n, x |-> Ids(q[i].x)]]
        v == DistinctOf(Ms)
    IN IF e.r # "ok" THEN [c |-> "dict-outcome", x |-> d]
       ELSE IF e.got # d THEN [c |-> "dict", x |-> d]
       ELSE IF e.all # a THEN [c |-> "dict-matches", x |-> a]
       ELSE IF ~e.enforce /\ ~e.details /\ e.vals # v THEN [c |-> "dict-values", x |-> v]
       ELSE IF ~e.pure THEN [c |-> "values-changed", x |-> <<>>]
       ELSE [c |-> "", x |-> <<>>]

OnKey(e) ==
    LET one == ReadOne(Ms, e.n)
        all == Values(Ms, e.n)
    IN IF e.r # "ok" THEN [c |-> "key-outcome", x |-> <<>>]
       ELSE IF e.one # one THEN [c |-> "key", x |-> one]
       ELSE IF e.all # all THEN [c |-> "key-all", x |-> all]
       ELSE [c |-> "", x |-> <<>>]

OnTo(e) ==
    LET w == To(Ms, K, e.model)
    IN IF e.got.r # w.r THEN [c |-> "to-outcome", x |-> w]
       ELSE IF e.got.x # w.x THEN [c |-> "to-values", x |-> w]
       ELSE IF e.got.fs # w.fs THEN [c |-> "to-fields", x |-> w]
       ELSE IF ~e.pure THEN [c |-> "values-changed", x |-> <<>>]
       ELSE [c |-> "", x |-> <<>>]

OnCheck(e) == LET w == IF Honoured(Ms, K) THEN "ok" ELSE "TypeError"
              IN [c |-> IF e.r = w THEN "" ELSE "check", x |-> <<w>>]
\* e.m: what the patterns find;  e.same: nothing else changed
OnRun(e) == LET w == IF Honoured(e.m, e.ks) THEN "ok" ELSE "TypeError"
            IN IF e.r # w THEN [c |-> "engine-check", x |-> <<w>>]
               ELSE IF ~e.same THEN [c |-> "engine-result", x |-> <<>>]
               ELSE [c |-> "", x |-> <<>>]

Verdict(e) == CASE e.op = "dict" -> OnDict(e) [] e.op = "key" -> OnKey(e) [] e.op = "to" -> OnTo(e)
                [] e.op = "check" -> OnCheck(e) [] e.op = "run" -> OnRun(e) [] OTHER -> [c |-> "", x |-> <<>>]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET e == Sessions[si].ev[l]
           v == Verdict(e)
       IN IF v.c = ""
          THEN /\ l' = l + 1
               /\ C' = CASE e.op = "put" -> InsertAt(C, e.i, e.m)
                         [] e.op = "del" -> Without(C, e.i + 1)
                         [] e.op = "keep" -> Cut(C, e.i, e.j)    \* from here on, a slice
                         [] e.op = "set" -> [C EXCEPT ![e.i + 1] = e.m]
                         [] OTHER -> C
               /\ O' = IF e.op = "value" THEN [O EXCEPT ![e.m].v = e.v, ![e.m].lit = TRUE] ELSE O
               /\ K' = IF e.op = "keys" THEN e.ks ELSE K
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> Sessions[si].id, l |-> l, c |-> v.c, x |-> v.x]))
               /\ l' = -l /\ UNCHANGED <<O, C, K>>
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
