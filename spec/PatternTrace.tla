------------------------------ MODULE PatternTrace ------------------------------
(* Recorded uses of one real pattern against module Patterns.  Events:        *)
(*   subst : the expressions compiled, after abbreviations                    *)
(*   found : everything the pattern (or an engine holding only it) emitted    *)
(*   set   : the value of one emitted match is set; values of all afterwards  *)
EXTENDS Patterns, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, vals
vars == <<si, l, vals>>
Init == /\ si \in 1..Len(Sessions) /\ l = 1 /\ vals = <<>>

View(X, x) ==
    LET m == Member(x)
        up == IF x.w = 0 THEN <<>> ELSE <<[s |-> x.m.s, e |-> x.m.e, n |-> x.m.n, val |-> MVal(X, x.m)]>>
        kid(k) == [s |-> k.s, e |-> k.e, n |-> k.n, val |-> MVal(X, k)]
    IN [s |-> m.s, e |-> m.e, n |-> m.n, t |-> m.t, priv |-> m.priv, mark |-> m.mark, val |-> MVal(X, m),
        raw |-> MRaw(X, m), par |-> up, kids |-> [j \in 1..Len(m.kids) |-> kid(m.kids[j])], own |-> TRUE]

Views(X, q) == [i \in 1..Len(q) |-> View(X, q[i])]
Expected(S) == Views(S.X, Found(S.p, S.X, 0))

OnFound(S, e) ==
    LET x == Expected(S)
        plain == Keep(x, LAMBDA m : ~m.mark)
        marks == Keep(x, LAMBDA m : m.mark)
    IN IF e.r.k # "ok" THEN [c |-> "outcome", x |-> x]
       ELSE IF ~e.pure THEN [c |-> "objects-altered", x |-> <<>>]
       ELSE IF ~e.ctx THEN [c |-> "context", x |-> <<>>]
       ELSE IF S.via = "direct" THEN [c |-> IF e.got = x THEN "" ELSE "emitted", x |-> x]
       ELSE IF e.got # plain THEN [c |-> "emitted", x |-> plain]
       ELSE IF e.marks # marks THEN [c |-> "markers", x |-> marks]
       ELSE [c |-> "", x |-> <<>>]

OnSubst(S, e) == LET x == [i \in 1..Len(e.exprs) |-> Abbreviated(e.exprs[i], e.abbr)]
                 IN [c |-> IF x = e.subst THEN "" ELSE "abbreviations", x |-> x]

\* values of the emitted matches once value v was given to number i
OnSet(S, e) == LET x == [vals EXCEPT ![e.i] = e.v] IN [c |-> IF e.vals = x THEN "" ELSE "value-set", x |-> x]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET S == Sessions[si]
           e == S.ev[l]
           v == CASE e.op = "found" -> OnFound(S, e)
                  [] e.op = "subst" -> OnSubst(S, e)
                  [] OTHER          -> OnSet(S, e)
       IN IF v.c = ""
          THEN /\ l' = l + 1
               /\ vals' = IF e.op = "found" THEN [i \in 1..Len(e.got) |-> e.got[i].val]
                          ELSE IF e.op = "set" THEN v.x ELSE vals
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> S.id, l |-> l, c |-> v.c, x |-> v.x]))
               /\ l' = -l
               /\ vals' = vals
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
