----------------------------- MODULE DiffGraph -----------------------------
(* Systems of difference constraints x[from] - x[to] <= d as weighted        *)
(* graphs: an arc is <<from, to, d>>, nodes and arcs are numbered from 0     *)
(* outside and from 1 here.  Distances are integers or NoPath.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoPath == 1000000000      \* larger than any distance that occurs

MinD(a, b) == IF a <= b THEN a ELSE b
PlusD(a, b) == IF a = NoPath \/ b = NoPath THEN NoPath ELSE IF a + b < -NoPath THEN -NoPath ELSE a + b

\* Arcs as triples over 1..n, restricted to the index set A.
RECURSIVE BestArc(_, _, _, _)
BestArc(arcs, A, u, v) ==
    LET W == {arcs[e][3] : e \in {f \in A : arcs[f][1] = u /\ arcs[f][2] = v}}
    IN  IF W = {} THEN NoPath ELSE CHOOSE w \in W : \A x \in W : w <= x

Direct(n, arcs, A) ==
    TLCEval([u \in 1..n |-> TLCEval([v \in 1..n |-> IF u = v THEN MinD(0, BestArc(arcs, A, u, v)) ELSE BestArc(arcs, A, u, v)])])

RECURSIVE FloydFrom(_, _, _)
FloydFrom(n, D, k) ==
    IF k > n THEN D
    ELSE FloydFrom(n, TLCEval([u \in 1..n |-> TLCEval([v \in 1..n |-> MinD(D[u][v], PlusD(D[u][k], D[k][v]))])]), k + 1)
\* All shortest distances; a negative entry on the diagonal is a negative cycle.
Dist(n, arcs, A) == FloydFrom(n, Direct(n, arcs, A), 1)
NegativeCycleIn(n, D) == \E v \in 1..n : D[v][v] < 0
NegativeCycle(n, arcs, A) == NegativeCycleIn(n, Dist(n, arcs, A))

ValidPotential(arcs, A, pi) == \A e \in A : pi[arcs[e][1]] + arcs[e][3] - pi[arcs[e][2]] >= 0

\* What the system implies from lower bounds: x[to] >= x[from] - d.
MaxOver(S) == CHOOSE x \in S : \A y \in S : y <= x
LowerFix(n, arcs, A, lb) ==
    LET D == Dist(n, arcs, A)
    IN  TLCEval([v \in 1..n |-> MaxOver({lb[u] - D[u][v] : u \in {w \in 1..n : D[w][v] # NoPath}})])
\* And from upper bounds: x[from] <= x[to] + d.
MinOver(S) == CHOOSE x \in S : \A y \in S : x <= y
UpperFix(n, arcs, A, ub) ==
    LET D == Dist(n, arcs, A)
    IN  TLCEval([v \in 1..n |-> MinOver({ub[u] + D[v][u] : u \in {w \in 1..n : D[v][w] # NoPath}})])
=============================================================================
