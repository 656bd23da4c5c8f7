----------------------------- MODULE Rejections ----------------------------
(* Which constraints are refused as ill-formed rather than given a meaning.  *)
EXTENDS Integers, Sequences, FiniteSets, Semantics

RepeatedHandle(ts) ==
    \E i, j \in 1..Len(ts) : i < j /\ ts[i][1] # 0 /\ ts[i] = ts[j]

Dom(t, doms) == TermValues(t, doms)
SomeNegative(ts, doms) == \E i \in 1..Len(ts) : Min(Dom(ts[i], doms)) < 0

Rejected(c, doms) ==
    CASE c.k = "compare" -> c.cls /\ c.r.m = "must" /\ ~c.oreq /\ c.x = c.y /\ c.x[1] # 0
      [] c.k = "equals" -> c.cls /\ c.r.m = "mustnot" /\ c.x = c.y /\ c.x[1] # 0
      [] c.k = "circuit" -> RepeatedHandle(c.xs)
      [] c.k = "inverse" -> RepeatedHandle(c.xs) \/ RepeatedHandle(c.ys)
      [] c.k = "difference" ->
            \E i \in 1..Len(c.edges) : \E t \in {c.edges[i].x, c.edges[i].y} : t[1] # 0 /\ t[2] = -1
      [] c.k \in {"cumulative", "disjunctive"} -> \E i \in 1..Len(c.pres) : ~(Dom(c.pres[i], doms) \subseteq {0, 1})
      [] OTHER -> FALSE
=============================================================================
