---------------------------- MODULE IntrospectTrace ----------------------------
(* Recorded lives of real engines against module Introspect.  Events:         *)
(*   setup : an engine is configured further                                  *)
(*   intro : engine i is introspected                                         *)
(*   idle  : its declared keys are checked                                    *)
(*   names : names of the public matches of a call, and introspection         *)
EXTENDS Introspect, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, E
vars == <<si, l, E>>
Init == /\ si \in 1..Len(Sessions) /\ l = 1
        /\ E = Sessions[si].E

\* the order of names is of no importance, the order of values is
Agree(a, b) == Len(a) = Len(b) /\ RangeOf(a) = RangeOf(b)
Alike(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Agree(a[k], b[k])

OnIntro(S, e) ==
    LET w == Introspected(E, S.P, S.R, e.i, e.on)
    IN IF e.r.k # "ok" THEN [c |-> "outcome", x |-> w]
       ELSE IF ~Alike(e.pats, w.pats) THEN [c |-> "patterns", x |-> w.pats]
       ELSE IF ~Alike(e.rules, w.rules) THEN [c |-> "rules", x |-> w.rules]
       ELSE IF ~Agree(e.all, w.all) THEN [c |-> "properties", x |-> w.all]
       ELSE [c |-> "", x |-> <<>>]
OnIdle(S, e) ==
    LET w == SelectSeq(S.names, LAMBDA n : n \in Idle(E, S.P, e.i, e.allowed))    \* S.names is sorted
    IN IF e.r.k # "ok" THEN [c |-> "outcome", x |-> w]
       ELSE IF e.got # w THEN [c |-> "unused-keys", x |-> w] ELSE [c |-> "", x |-> <<>>]
OnNames(S, e) ==
    LET ps == EffPatterns(E, e.i, e.on)
    IN IF (\A k \in RangeOf(ps) : Foreseeable(S.P[k])) /\ ~(RangeOf(e.found) \subseteq NamesOf(e.all))
       THEN [c |-> "names", x |-> SelectSeq(e.found, LAMBDA n : n \notin NamesOf(e.all))] ELSE [c |-> "", x |-> <<>>]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET S == Sessions[si]
           e == S.ev[l]
           v == CASE e.op = "intro" -> OnIntro(S, e)
                  [] e.op = "idle"  -> OnIdle(S, e)
                  [] e.op = "names" -> OnNames(S, e)
                  [] OTHER          -> [c |-> "", x |-> <<>>]
       IN IF v.c = ""
          THEN /\ l' = l + 1
               /\ E' = IF e.op = "setup" THEN SetUp(E, e) ELSE E
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> S.id, l |-> l, c |-> v.c, x |-> v.x]))
               /\ l' = -l /\ UNCHANGED E
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
