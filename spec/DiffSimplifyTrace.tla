-------------------------- MODULE DiffSimplifyTrace ------------------------
(* Root simplification: what may be dropped, what conditions must be false,  *)
(* and how many sets of nodes are rigid, all judged by distances.            *)
EXTENDS DiffGraph, TraceBase

Init == l = 1

Arcs1(s) == TLCEval([e \in 1..Len(s) |-> <<s[e][1] + 1, s[e][2] + 1, s[e][3]>>])
With(roles, r) == {e \in 1..Len(roles) : roles[e] = r}

RECURSIVE WalkWeight(_, _, _)
WalkWeight(arcs, path, i) == IF i > Len(path) THEN 0 ELSE arcs[path[i] + 1][3] + WalkWeight(arcs, path, i + 1)
Walk(arcs, base, path, from, to) ==
    IF path = << >> THEN from = to
    ELSE /\ \A i \in 1..Len(path) : (path[i] + 1) \in base
         /\ arcs[path[1] + 1][1] = from
         /\ arcs[path[Len(path)] + 1][2] = to
         /\ \A i \in 1..(Len(path) - 1) : arcs[path[i] + 1][2] = arcs[path[i + 1] + 1][1]

Judge(n, arcs, roles, o) ==
    LET base == With(roles, "base")
        cand == With(roles, "cand")
        D == Dist(n, arcs, base)
        neg == NegativeCycleIn(n, D)
        kept == {e \in base : ~ o.remove[e]}
        mustfix == {e \in cand : ~ (D[arcs[e][1]][arcs[e][2]] # NoPath /\ arcs[e][3] >= D[arcs[e][1]][arcs[e][2]])
                                 /\ D[arcs[e][2]][arcs[e][1]] # NoPath /\ arcs[e][3] + D[arcs[e][2]][arcs[e][1]] < 0}
        rigid(u) == {v \in 1..n : D[u][v] # NoPath /\ D[v][u] # NoPath /\ D[u][v] + D[v][u] = 0}
        classes == {c \in {rigid(u) : u \in 1..n} : Cardinality(c) > 1}
    IN  /\ Check("negative cycle", o.neg, neg /\ Len(arcs) > 0)
        /\ Check("one flag per edge", Len(o.remove), Len(arcs))
        /\ ~ neg =>
             /\ Check("distances kept", Dist(n, arcs, kept), D)
             /\ \A e \in 1..Len(arcs) :
                  roles[e] = "ignored" => Check("ignored edge", o.remove[e], FALSE)
             /\ \A e \in kept : Check("kept edge is tight", arcs[e][3], D[arcs[e][1]][arcs[e][2]])
             /\ \A e, f \in kept : Holds("one tight edge per pair", e = f \/ arcs[e][1] # arcs[f][1] \/ arcs[e][2] # arcs[f][2])
             /\ \A e \in cand :
                  Check("implied edge", o.remove[e], D[arcs[e][1]][arcs[e][2]] # NoPath /\ arcs[e][3] >= D[arcs[e][1]][arcs[e][2]])
             /\ Check("fixed", {o.fix[i][1] + 1 : i \in 1..Len(o.fix)}, mustfix)
             /\ Check("fixed once", Len(o.fix), Cardinality(mustfix))
             /\ \A i \in 1..Len(o.fix) :
                  LET e == o.fix[i][1] + 1
                  IN  /\ Holds("witness path", Walk(arcs, base, o.fix[i][2], arcs[e][2], arcs[e][1]))
                      /\ Holds("witness weight", arcs[e][3] + WalkWeight(arcs, o.fix[i][2], 1) < 0)
             /\ Check("zero cycles", o.zero, Cardinality(classes))
             /\ Check("nodes on them", o.onzero, Cardinality(UNION classes))

Simplify == IsEvent("simplify") /\ Judge(Ev.n, Arcs1(Ev.edges), Ev.roles, Ev)
Refuse == IsEvent("refuse") /\ Holds("lengths differ", Ev.edges # Ev.roles)
Next == Simplify \/ Refuse
Spec == Init /\ [][Next]_l
=============================================================================
