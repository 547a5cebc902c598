------------------------------- MODULE RulesTrace -------------------------------
(* Recorded runs of the real rule engine.  Events, in the order they occurred:*)
(*   when : rule i is asked; C and snap are what it saw, ms what it answered  *)
(*   then : rule i acts (given the very response of its `when`)               *)
(*   end  : the run is over: outcome, final matches, reported rules           *)
(* Built-in and disabled rules leave no event: the specification steps over   *)
(* them, and what the next event saw must include their effect.               *)
EXTENDS Rules, Json, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l, st, pos, pend, trig, on
vars == <<si, l, st, pos, pend, trig, on>>

Silent == {"ConflictSolver", "PrivateRemover"}
Init == /\ si \in 1..Len(Sessions)
        /\ l = 1 /\ pos = 1
        /\ st = St(Sessions[si].init, Sessions[si].O)
        /\ pend = <<>>
        /\ trig = <<>>
        /\ on = Sessions[si].ctx

\* step over rules that are not observed
RECURSIVE Adv(_, _, _)
Adv(S, q, a) ==
    IF a.pos > Len(q) THEN a
    ELSE LET r == S.rules[q[a.pos]]
         IN IF r.cls \in Silent \/ ~Enabled(r, on)
            THEN Adv(S, q, [pos |-> a.pos + 1, st |-> Step(S.X, a.st, S.K, r, on).st])
            ELSE a

Snap(O) == [i \in 1..Len(O) |-> <<O[i].n>> \o O[i].t]

OnWhen(S, q, e) ==
    LET a == Adv(S, q, [pos |-> pos, st |-> st])
        r == S.rules[e.i]
        x == Step(S.X, a.st, S.K, r, on)
        c == IF pend # <<>> THEN "action-missing"
             ELSE IF a.pos > Len(q) THEN "rule-order"
             ELSE IF q[a.pos] # e.i THEN "rule-order"
             ELSE IF e.C # a.st.C THEN "seen"
             ELSE IF e.snap # Snap(a.st.O) THEN "attributes"
             ELSE IF e.K # S.K THEN "markers"
             ELSE IF ~e.ctx THEN "context"
             ELSE IF e.ms # Answered(a.st.O, S.X, a.st.C, S.K, r) THEN "lookup"
             ELSE ""
        w == IF a.pos <= Len(q) THEN Res("list", <<q[a.pos]>> \o a.st.C) ELSE Res("list", a.st.C)
    IN [c |-> c, x |-> w,
        st |-> IF c # "" THEN st ELSE IF x.ms = <<>> THEN a.st ELSE x.st,
        pos |-> IF c # "" THEN pos ELSE a.pos + 1,
        pend |-> IF c # "" \/ x.ms = <<>> THEN <<>> ELSE <<e.i>> \o x.ms,
        trig |-> trig]

OnThen(S, q, e) ==
    LET c == IF pend = <<>> \/ (pend # <<>> /\ pend[1] # e.i) THEN "action"
             ELSE IF ~e.same THEN "response"
             ELSE IF ~e.ctx THEN "context" ELSE ""
    IN [c |-> c, x |-> Res("list", pend), st |-> st, pos |-> pos, pend |-> <<>>,
        trig |-> IF c = "" THEN Append(trig, pend) ELSE trig]

OnEnd(S, o, e) ==
    LET a == Adv(S, o.q, [pos |-> pos, st |-> st])
        c == IF pend # <<>> THEN "action-missing"
             ELSE IF ~o.ok THEN (IF e.r.k = "err" THEN "" ELSE "error-expected")
             ELSE IF e.r.k # "ok" THEN "outcome"
             ELSE IF a.pos <= Len(o.q) THEN "rule-missing"
             ELSE IF e.C # a.st.C THEN "result"
             ELSE IF e.snap # Snap(a.st.O) THEN "attributes"
             ELSE IF e.K # S.K THEN "markers"
             ELSE IF e.hasret /\ e.ret # trig THEN "report"
             ELSE ""
    IN [c |-> c, x |-> Res("list", a.st.C), st |-> a.st, pos |-> a.pos, pend |-> <<>>, trig |-> trig]

Next ==
    /\ l > 0 /\ l <= Len(Sessions[si].ev)
    /\ LET S == Sessions[si]
           e == S.ev[l]
           o == Order(S.rules)
           v == CASE e.op = "when" -> OnWhen(S, o.q, e)
                  [] e.op = "then" -> OnThen(S, o.q, e)
                  [] OTHER         -> OnEnd(S, o, e)
       IN IF v.c = ""
          THEN /\ l' = l + 1
               /\ on' = IF e.op = "when" THEN After(S.rules[e.i], on) ELSE on
               /\ st' = v.st /\ pos' = v.pos /\ pend' = v.pend /\ trig' = v.trig
          ELSE /\ PrintT("@@BAD " \o ToJson([s |-> S.id, l |-> l, c |-> v.c, x |-> v.x]))
               /\ l' = -l
               /\ UNCHANGED <<st, pos, pend, trig, on>>
    /\ UNCHANGED si

Spec == Init /\ [][Next]_vars
=============================================================================
