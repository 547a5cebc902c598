------------------------------ MODULE StoreTrace ------------------------------
(* Recorded sessions of the real Matches / Markers against module Store.      *)
(* One session per initial state; one transition per recorded edit (with the  *)
(* lookups made after it).  A disagreement is printed and ends the session.   *)
EXTENDS Store, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES si, l, C
vars == <<si, l, C>>

Init == /\ si \in 1..Len(Sessions)
        /\ l = 1
        /\ C = Sessions[si].init

Verdict(S, e, x) ==
    LET bad == {i \in 1..Len(e.q) : ~LookupOK(S.O, S.X, x.C, e.q[i], e.q[i].r)}
    IN IF e.op # "none" /\ ~Same(e.r, x.r) THEN [c |-> "edit-result:" \o e.op, i |-> 0, x |-> x.r]
       ELSE IF e.after # x.C THEN [c |-> "contents:" \o e.op, i |-> 0, x |-> Res("list", x.C)]
       ELSE IF bad # {} THEN LET i == SetMin(bad) IN
            [c |-> "lookup:" \o e.q[i].op, i |-> i, x |-> Lookup(S.O, S.X, x.C, e.q[i])]
       ELSE [c |-> "", i |-> 0, x |-> OKAY]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET S == Sessions[si]
           e == S.ev[l]
           x == Edit(S.O, S.X, C, e)
           v == Verdict(S, e, x)
       IN IF v.c = ""
          THEN /\ l' = l + 1
               /\ C' = x.C
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> S.id, l |-> l, c |-> v.c, i |-> v.i, x |-> v.x]))
               /\ l' = -l
               /\ C' = C
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
