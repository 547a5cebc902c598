---------------------------------- MODULE Calls ---------------------------------
(* Calls in progress at the same time.  A call of engine i with a context     *)
(* goes on in small steps: it asks one pattern after the other, then one rule *)
(* after the other, and answers.  Steps of different calls interleave freely  *)
(* (threads), or those of one nest within another (a user's function or rule  *)
(* that matches).  What a call works on is its own: module Engine's Run, in   *)
(* one step, is what each of them answers, whatever the others do.            *)
(*                                                                            *)
(* Where says what calls keep on the engine instead of for themselves:        *)
(*   "own" nothing;  "matches" what has been found;  "context" the context;   *)
(*   "turn" how far the patterns have been asked                              *)
(* Only "own" meets AsAlone.                                                  *)
EXTENDS Engine
CONSTANTS Where, P, R, X, Wanted     \* Wanted : the calls, as [i, on]

VARIABLES E,        \* the engines: the same ever after
          call,     \* what each call keeps: [pc, k, st, K, asked, on]
          held,     \* what engines keep, the same fields
          out       \* answers
cvars == <<E, call, held, out>>

Empty == [pc |-> "idle", k |-> 0, O |-> <<>>, ids |-> <<>>, K |-> <<>>, asked |-> <<>>, on |-> FALSE]
CallsInit == /\ call = [c \in 1..Len(Wanted) |-> Empty]
             /\ held = [i \in 1..Len(E) |-> Empty]
             /\ out = [c \in 1..Len(Wanted) |-> <<>>]

\* a call's state as it sees it, and as it leaves it
See(c) == LET h == held[Wanted[c].i] own == call[c] IN
          CASE Where = "matches" -> [own EXCEPT !.O = h.O, !.ids = h.ids]
            [] Where = "context" -> [own EXCEPT !.on = h.on]
            [] Where = "turn"    -> [own EXCEPT !.k = h.k]
            [] OTHER             -> own
Leave(c, s) == /\ call' = [call EXCEPT ![c] = s]
               /\ held' = IF Where = "own" THEN held ELSE [held EXCEPT ![Wanted[c].i] = s]

DoBegin(c) ==
    /\ call[c].pc = "idle"
    /\ LET a == Wanted[c] IN
       IF Off(E[a.i].dis, a.on) THEN /\ Leave(c, [Empty EXCEPT !.pc = "done", !.on = a.on])
                                     /\ out' = [out EXCEPT ![c] = [O |-> <<>>, C |-> <<>>, K |-> <<>>, asked |-> <<>>]]
       ELSE /\ Leave(c, [Empty EXCEPT !.pc = "find", !.on = a.on])
            /\ UNCHANGED out
    /\ UNCHANGED E
DoFind(c) ==
    /\ call[c].pc = "find"
    /\ LET s == See(c)
           ps == EffPatterns(E, Wanted[c].i, s.on)
       IN IF s.k >= Len(ps) THEN Leave(c, [s EXCEPT !.pc = "rules", !.k = 0])
          ELSE LET p == P[ps[s.k + 1]] IN
               IF Off(p.dis, s.on) THEN Leave(c, [s EXCEPT !.k = @ + 1])
               ELSE LET r == FindAlone(p, X, s.O) IN Leave(c, [s EXCEPT !.k = @ + 1, !.O = r.O, !.ids = @ \o r.outs])
    /\ UNCHANGED <<E, out>>
\* found matches become ordinary ones and markers; rules work on [C, O]
Stated(s) == LET O == [i \in 1..Len(s.O) |-> s.O[i] @@ [sv |-> ""]] IN
             St(Keep(s.ids, LAMBDA i : ~O[i].mark), O)
MarkersOf(s) == Keep(s.ids, LAMBDA i : s.O[i].mark)
DoApply(c) ==
    /\ call[c].pc = "rules"
    /\ LET s == See(c)
           rs == EffRules(E, R, Wanted[c].i, s.on)
           rules == [k \in 1..Len(rs) |-> R[rs[k]]]
           o == Order(rules)
       IN IF s.k >= Len(o.q)
          THEN LET st == Stated(s) IN
               /\ Leave(c, [s EXCEPT !.pc = "done"])
               /\ out' = [out EXCEPT ![c] = [O |-> st.O, C |-> st.C, K |-> MarkersOf(s), asked |-> s.asked]]
          ELSE LET rule == rules[o.q[s.k + 1]]
                   st == Step(X, Stated(s), MarkersOf(s), rule, s.on).st
                   seen == rule.cls \notin {"ConflictSolver", "PrivateRemover"} /\ Enabled(rule, s.on)
               IN /\ Leave(c, [s EXCEPT !.k = @ + 1, !.O = st.O, !.ids = st.C \o MarkersOf(s),
                                        !.asked = IF seen THEN Append(@, rule.cls) ELSE @])
                  /\ UNCHANGED out
    /\ UNCHANGED E

CallsNext == \E c \in 1..Len(Wanted) : DoBegin(c) \/ DoFind(c) \/ DoApply(c)

\* every answer is the one the call gives alone
AsAlone == \A c \in 1..Len(Wanted) : call[c].pc = "done" =>
    LET r == Run(E, P, R, X, Wanted[c].i, Wanted[c].on) IN
    out[c] = [O |-> r.O, C |-> r.C, K |-> r.K, asked |-> r.asked]
=============================================================================
