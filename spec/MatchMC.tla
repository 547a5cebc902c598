-------------------------------- MODULE MatchMC --------------------------------
(* Laws of the operators of MatchOps, on every case within the constants.     *)
EXTENDS MatchOps, TLC

CONSTANT N
Spans == {sp \in (0..N) \X (0..N) : sp[1] < sp[2]}

VARIABLES crops, objs
vars == <<crops, objs>>

ObjOf(s, n, lit, par) == [s |-> s[1], e |-> s[2], n |-> n, t |-> <<>>, lit |-> lit, fm |-> <<>>, par |-> par,
                          mark |-> FALSE, priv |-> FALSE]
X == [i \in 1..N |-> "a"]

Init == crops = <<>> /\ objs = <<>>
AddCrop == /\ objs = <<>> /\ Len(crops) < 3
           /\ \E c \in Spans : crops' = Append(crops, c)
           /\ UNCHANGED objs
AddObj == /\ crops = <<>> /\ Len(objs) < 4
          /\ \E s \in {<<0, 1>>, <<0, 2>>, <<1, 2>>}, n \in {"", "x"}, l \in {<<>>, <<"a">>}, p \in 0..Len(objs) :
                objs' = Append(objs, ObjOf(s, n, l, p))
          /\ UNCHANGED crops
Next == AddCrop \/ AddObj
Spec == Init /\ [][Next]_vars
Stay == UNCHANGED vars

\* cropping piece by piece, in any order, leaves exactly the uncovered stretches
CropLaw == \A m \in Spans :
    LET c == Cropped(m[1], m[2], crops)
        f == CropFold(<<m>>, crops)
    IN /\ RangeOf(c) = RangeOf(f) /\ Len(c) = Len(f)
       /\ \A k \in 1..Len(c) : m[1] <= c[k][1] /\ c[k][1] < c[k][2] /\ c[k][2] <= m[2]
       /\ \A k \in 1..(Len(c) - 1) : c[k][2] < c[k + 1][1]
       /\ RangeOf(CropFold(<<m>>, Rev(crops))) = RangeOf(c)

\* equality is an equivalence, and the order is a weak order on spans
EqLaw == LET D == 1..Len(objs) IN
    /\ \A a \in D : EqM(objs, X, a, a)
    /\ \A a, b \in D : EqM(objs, X, a, b) = EqM(objs, X, b, a)
    /\ \A a, b, c \in D : EqM(objs, X, a, b) /\ EqM(objs, X, b, c) => EqM(objs, X, a, c)
    /\ \A a, b \in D : EqM(objs, X, a, b) => Span(objs, a) = Span(objs, b)       \* hash on the span is sound
    /\ \A a, b \in D : ~(SpanBefore(objs, a, b) /\ SpanBefore(objs, b, a))
    /\ LET q == Sorted(objs, [i \in D |-> i])
       IN \A i, j \in 1..Len(q) : i < j => SpanBefore(objs, q[i], q[j])
                                         \/ (Span(objs, q[i]) = Span(objs, q[j]) /\ q[i] < q[j])

\* a tree read upwards and downwards is the same tree
FamilyLaw == LET D == 1..Len(objs)
                 kids == [m \in D |-> SelectSeq([i \in D |-> i], LAMBDA k : objs[k].par = m)]
                 leaf(m) == kids[m] = <<>>
             IN \A m \in D :
    /\ objs[Top(objs, m)].par = 0 /\ Top(objs, Top(objs, m)) = Top(objs, m)
    /\ \A j \in 1..Len(kids[m]) : Top(objs, kids[m][j]) = Top(objs, m)
    /\ LeafNames(objs, kids, m) # {}
    /\ objs[m].par = 0 => LeafNames(objs, kids, m) = {objs[k].n : k \in {k \in D : leaf(k) /\ Top(objs, k) = m}}
    /\ \A j \in 1..Len(kids[m]) : LeafNames(objs, kids, kids[m][j]) \subseteq LeafNames(objs, kids, m)
    /\ AnyNamed(objs, kids, m, <<"", "x">>) /\ ~AnyNamed(objs, kids, m, <<>>)

\* the validators: around is both sides; all together is the conjunction, in any order; nothing is asked after a refusal
BorderLaw == \A m \in Spans :
    LET Z == <<ObjOf(m, "", <<>>, 0)>>
        T == [i \in 1..N |-> IF i % 2 = 0 THEN "a" ELSE "-"]
        V == {[k |-> k, c |-> c] : k \in {"before", "after", "around", "yes", "no"}, c \in {<<>>, <<"a">>, <<"-">>, <<"a", "-">>}}
        ok(v) == Border(Z, T, 1, v.k, v.c)
    IN \A v, w \in V :
        /\ v.k = "around" => ok(v) = (Border(Z, T, 1, "before", v.c) /\ Border(Z, T, 1, "after", v.c))
        /\ v.c = <<"a", "-">> /\ v.k # "no" => ok(v)
        /\ (v.k = w.k /\ RangeOf(v.c) \subseteq RangeOf(w.c) /\ ok(v)) => ok(w)
        /\ AskAll(Z, T, 1, <<v, w>>) = <<B(ok(v) /\ ok(w)), IF ok(v) THEN 2 ELSE 1>>
        /\ AskAll(Z, T, 1, <<>>) = <<1, 0>>
        /\ AskAll(Z, T, 1, <<v, w>>)[1] = AskAll(Z, T, 1, <<w, v>>)[1]
=============================================================================
