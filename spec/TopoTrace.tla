-------------------------------- MODULE TopoTrace --------------------------------
(* rebulk.toposort: the layers of a dependency graph.                         *)
EXTENDS Py, Json, TLC, IOUtils
Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES si, l
Init == si \in 1..Len(Sessions) /\ l = 1

Nodes(g) == {g[i][1] : i \in 1..Len(g)} \cup UNION {RangeOf(g[i][2]) : i \in 1..Len(g)}
Deps(g, x) == (UNION {RangeOf(g[i][2]) : i \in {j \in 1..Len(g) : g[j][1] = x}}) \ {x}

RECURSIVE Layers(_, _)
Layers(g, todo) == LET ready == {x \in todo : Deps(g, x) \cap todo = {}}
                   IN IF ready = {} THEN [k |-> IF todo = {} THEN "ok" ELSE "cyclic", q |-> <<>>]
                      ELSE LET r == Layers(g, todo \ ready)
                           IN [k |-> r.k, q |-> <<SeqOfSet(ready)>> \o r.q]
Judge(g, e) == LET x == Layers(g, Nodes(g))
               IN IF e.k # x.k THEN "cycle" ELSE IF e.layers # x.q THEN "layers"
                  ELSE IF x.k = "ok" /\ e.flat # Flat(x.q) THEN "flatten"
                  ELSE IF ~e.pure THEN "input-modified" ELSE ""
Next == /\ l = 1
        /\ LET S == Sessions[si]  c == Judge(S.g, S.ev[1])
           IN IF c = "" THEN l' = 2
              ELSE /\ PrintT("@@BAD " \o ToJson([s |-> S.id, l |-> 1, c |-> c, x |-> Layers(S.g, Nodes(S.g))]))
                   /\ l' = -1
        /\ UNCHANGED si
Spec == Init /\ [][Next]_<<si, l>>
=============================================================================
