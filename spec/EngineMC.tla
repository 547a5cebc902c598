-------------------------------- MODULE EngineMC --------------------------------
(* Laws of module Engine: every way to set up three engines in at most N      *)
(* steps, with string and expression-like patterns, a marker, a private       *)
(* pattern, switched patterns and engines, and two rule classes.              *)
EXTENDS Engine
CONSTANT N

X == <<"a", "b", "a", "b">>
Base == [kind |-> "string", name |-> "x", tags |-> <<>>, priv |-> FALSE, mark |-> FALSE, children |-> FALSE, every |-> FALSE,
         pparent |-> FALSE, pchildren |-> FALSE, pnames |-> <<>>, inames |-> <<>>, fall |-> FALSE, vall |-> FALSE, fm |-> <<>>,
         va |-> <<>>, vd |-> <<>>, pre |-> "", post |-> "", pp |-> "", ic |-> FALSE, srcs |-> <<>>, occ |-> <<>>, gn |-> <<>>,
         rets |-> <<>>, dis |-> "no", pid |-> 0]
Pat(i, w, n) == [Base EXCEPT !.srcs = w, !.name = n, !.pid = i]
P == <<Pat(1, <<<<"a">>>>, "x"), [Pat(2, <<<<"a", "b">>>>, "y") EXCEPT !.dis = "on"], [Pat(3, <<<<"b", "a">>>>, "x") EXCEPT !.priv = TRUE],
       [Pat(4, <<<<"b">>>>, "k") EXCEPT !.mark = TRUE], [Pat(5, <<<<"b">>, <<"a", "b", "a">>>>, "z") EXCEPT !.dis = "off"]>>
Rule(cls, prio, sel, arg, k) == [cls |-> cls, prio |-> prio, deps |-> <<>>, on |-> "yes", sel |-> sel, arg |-> arg, ids |-> <<>>, at |-> 0,
                                 one |-> FALSE, multi |-> FALSE, cons |-> <<[k |-> k, name |-> "w", tags |-> <<>>]>>]
R == <<Rule("ConflictSolver", 2048, "nothing", <<>>, "none"), Rule("PrivateRemover", 0 - 2048, "nothing", <<>>, "none"),
       Rule("Ra", 0, "named", <<"x">>, "rename"), [Rule("Rb", 0, "named", <<"w">>, "remove") EXCEPT !.deps = <<"Ra">>],
       Rule("Ra", 0 - 1, "named", <<"x">>, "rename")>>

VARIABLES E, steps
None == [Fresh EXCEPT !.rules = <<>>]
Init == /\ steps = 0
        /\ E \in {<<a, [b EXCEPT !.dis = d], [c EXCEPT !.dis = "off"]>> :
                   a \in {Fresh}, b \in {Fresh, None}, c \in {None}, d \in {"no", "yes", "on"}}
Setups == {[what |-> "pattern", i |-> i, ids |-> <<k>>, n |-> ""] : i \in 1..3, k \in 1..Len(P)}
          \cup {[what |-> "rule", i |-> i, ids |-> <<k>>, n |-> ""] : i \in 1..2, k \in 3..Len(R)}
          \cup {[what |-> "child", i |-> 1, ids |-> <<k>>, n |-> ""] : k \in 2..3}
          \cup {[what |-> "child", i |-> 2, ids |-> <<3>>, n |-> ""]}
          \cup {[what |-> "key", i |-> i, ids |-> <<i>>, n |-> "x"] : i \in 1..2}
Next == /\ steps < N /\ steps' = steps + 1
        /\ \E s \in Setups : E' = SetUp(E, s)
Spec == Init /\ [][Next]_<<E, steps>>

Same2(a, b) == a.ok = b.ok /\ (a.ok => (a.O = b.O /\ a.C = b.C /\ a.K = b.K /\ a.asked = b.asked /\ a.keys = b.keys))
Out(Z, on) == Run(Z, P, R, X, 1, on)

\* a composition is the one engine that holds everything it effectively has
Flat1(on) == LET z == [Fresh EXCEPT !.pats = EffPatterns(E, 1, on), !.rules = EffRules(E, R, 1, on), !.keys = EffKeys(E, 1, on)]
             IN Same2(Out(<<z>>, on), Out(E, on))
IsFlat == \A on \in BOOLEAN : Flat1(on)
\* a child that is disabled is as good as absent; so is a disabled pattern
NoDisabled == \A on \in BOOLEAN :
    LET live == [E EXCEPT ![1].kids = SelectSeq(@, LAMBDA k : ~Off(E[k].dis, on))]
        pats == [k \in 1..Len(E) |-> [live[k] EXCEPT !.pats = SelectSeq(@, LAMBDA p : ~Off(P[p].dis, on))]]
    IN Same2(Out(live, on), Out(E, on)) /\ Same2(Out(pats, on), Out(E, on))
\* an engine that is disabled finds nothing and declares nothing
SwitchedOff == LET Z == [E EXCEPT ![1].dis = "yes"] IN \A on \in BOOLEAN : LET z == Out(Z, on) IN z.C = <<>> /\ z.K = <<>> /\ z.keys = <<>>
\* adding a child again, or engines below a child, changes nothing
Again == \A on \in BOOLEAN :
    /\ Same2(Out([E EXCEPT ![1].kids = @ \o @], on), Out(E, on))
    /\ Same2(Out([E EXCEPT ![2].kids = <<>>], on), Out(E, on))
\* own elements always count and come first
OwnFirst == \A on \in BOOLEAN :
    /\ Cut(EffPatterns(E, 1, on), 0, Len(E[1].pats)) = E[1].pats
    /\ Cut(EffRules(E, R, 1, on), 0, Len(E[1].rules)) = E[1].rules
    /\ \A i \in 1..Len(E[1].keys) : \E j \in 1..Len(EffKeys(E, 1, on)) : EffKeys(E, 1, on)[j] = [n |-> E[1].keys[i].n, id |-> 1]
\* the union holds everything, and adds nothing twice
Unions == \A on \in BOOLEAN :
    LET q == EffPatterns(E, 1, on)
        r == EffRules(E, R, 1, on)
        own == Len(E[1].pats)
        rown == Len(E[1].rules)
    IN /\ RangeOf(q) = UNION {RangeOf(E[s].pats) : s \in RangeOf(Sources(E, 1, on))}
       /\ \A i, j \in 1..Len(q) : i < j /\ j > own => q[i] # q[j]
       /\ {R[k].cls : k \in RangeOf(r)} = {R[k].cls : k \in UNION {RangeOf(E[s].rules) : s \in RangeOf(Sources(E, 1, on))}}
       /\ \A i, j \in 1..Len(r) : i < j /\ j > rown => R[r[i]].cls # R[r[j]].cls
\* with the default rules a result has no private match and no overlap, and markers stay apart
Clean == \A on \in BOOLEAN :
    LET z == Out(E, on) IN z.ok =>
        /\ \A i \in 1..Len(z.C) : ~z.O[z.C[i]].priv /\ ~z.O[z.C[i]].mark
        /\ \A i \in 1..Len(z.K) : z.O[z.K[i]].mark
        /\ \A i, j \in 1..Len(z.C) : i # j =>
              LET a == z.O[z.C[i]] b == z.O[z.C[j]] IN ~(a.s < b.e /\ b.s < a.e /\ (a.s # b.s \/ a.e # b.e))
\* the engine is left as it was: what a run depends on is E alone (a function), and resetting it makes it new
Reset == SetUp(E, [what |-> "reset", i |-> 1, ids |-> <<>>, n |-> ""])[1] = Fresh
=============================================================================
