---------------------------------- MODULE CallsMC --------------------------------
(* Every interleaving of calls on engines that share patterns, rules and      *)
(* children, against what each gives alone.                                   *)
EXTENDS Calls

TX == <<"a", "b", "a">>
Base == [kind |-> "string", name |-> "x", tags |-> <<>>, priv |-> FALSE, mark |-> FALSE, children |-> FALSE, every |-> FALSE,
         pparent |-> FALSE, pchildren |-> FALSE, pnames |-> <<>>, inames |-> <<>>, fall |-> FALSE, vall |-> FALSE, fm |-> <<>>,
         va |-> <<>>, vd |-> <<>>, pre |-> "", post |-> "", pp |-> "", ic |-> FALSE, srcs |-> <<>>, occ |-> <<>>, gn |-> <<>>,
         rets |-> <<>>, dis |-> "no", pid |-> 0]
Pat(i, w, n) == [Base EXCEPT !.srcs = w, !.name = n, !.pid = i]
TP == <<Pat(1, <<<<"a">>>>, "x"), [Pat(2, <<<<"a", "b">>>>, "y") EXCEPT !.dis = "on"], [Pat(3, <<<<"b">>>>, "k") EXCEPT !.mark = TRUE]>>
Rule(cls, prio, sel, arg, k) == [cls |-> cls, prio |-> prio, deps |-> <<>>, on |-> "yes", sel |-> sel, arg |-> arg, ids |-> <<>>, at |-> 0,
                                 one |-> FALSE, multi |-> FALSE, cons |-> <<[k |-> k, name |-> "w", tags |-> <<>>]>>]
TR == <<Rule("ConflictSolver", 2048, "nothing", <<>>, "none"), Rule("PrivateRemover", 0 - 2048, "nothing", <<>>, "none"),
        Rule("Ra", 0, "named", <<"x">>, "rename")>>
TAsked == <<[i |-> 1, on |-> TRUE], [i |-> 1, on |-> FALSE], [i |-> 2, on |-> TRUE]>>
TAsked2 == <<[i |-> 1, on |-> TRUE], [i |-> 1, on |-> FALSE]>>

Engines == {<<[Fresh EXCEPT !.pats = <<1, 2>>, !.kids = k, !.rules = @ \o <<3>>], [Fresh EXCEPT !.dis = d, !.pats = <<3, 1>>]>> :
            k \in {<<>>, <<2>>}, d \in {"no", "off"}}
Init == E \in Engines /\ CallsInit
Spec == Init /\ [][CallsNext]_cvars
SetupStays == [][E' = E]_cvars
=============================================================================
