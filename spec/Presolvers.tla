----------------------------- MODULE Presolvers -----------------------------
(* What a presolver may report about itself: how many rows it could use and   *)
(* why it passed over the others, and how much it tabulated.                  *)
EXTENDS Integers, Sequences, FiniteSets, Semantics

Entry(e, n) == LET I == {i \in 1..Len(e) : e[i][1] = n} IN IF Cardinality(I) = 1 THEN e[CHOOSE i \in I : TRUE][2] ELSE -1

\* the rows "positive - negative <= something" the constraints state
Donor(c) == c.k \in {"linle", "compare"}
Gt(c) == "gt" \in DOMAIN c /\ c.gt
Class(c) ==
    IF c.r.m \notin {"must", "if"} THEN "skipped_reified"
    ELSE LET sides == IF c.k = "compare" THEN (IF Gt(c) THEN <<c.y, c.x>> ELSE <<c.x, c.y>>)
                      ELSE IF Len(c.sum) # 2 THEN <<>>
                      ELSE LET s == IF c.ge THEN -1 ELSE 1
                           IN  IF s * c.sum[1][1] = 1 /\ s * c.sum[2][1] = -1 THEN <<c.sum[1][2], c.sum[2][2]>>
                               ELSE IF s * c.sum[1][1] = -1 /\ s * c.sum[2][1] = 1 THEN <<c.sum[2][2], c.sum[1][2]>>
                               ELSE <<1>>
         IN  IF sides = <<>> THEN "skipped_not_two_terms"
             ELSE IF sides = <<1>> THEN "skipped_coefficients"
             ELSE IF \E i \in {1, 2} : sides[i][1] # 0 /\ sides[i][2] = -1 THEN "skipped_negated_view"
             ELSE IF (\E i \in {1, 2} : sides[i][1] = 0) \/ sides[1][1] = sides[2][1] THEN "skipped_degenerate"
             ELSE "edges_lifted"
Nodes(c) == IF c.k = "compare" THEN {c.x[1], c.y[1]} ELSE {c.sum[1][2][1], c.sum[2][2][1]}

Wrong(e, cons) ==
    LET All == {i \in 1..Len(cons) : Donor(cons[i])}
        Of(n) == {i \in All : Class(cons[i]) = n}
        up == Of("edges_lifted")
        want == [n \in {"edges_lifted", "skipped_not_two_terms", "skipped_coefficients", "skipped_reified", "skipped_negated_view", "skipped_degenerate"}
                    |-> Cardinality(Of(n))]
               @@ ("comparison_edges_lifted" :> Cardinality({i \in up : cons[i].k = "compare"}))
               @@ ("half_reified_edges_lifted" :> Cardinality({i \in up : cons[i].r.m = "if"}))
               @@ ("nodes" :> Cardinality(UNION {Nodes(cons[i]) : i \in up}))
               @@ ("skipped_uncitable_row" :> 0)
               @@ ("propagator_installed" :> IF Cardinality(up) >= 2 THEN 1 ELSE 0)
    IN  {<<n, Entry(e, n), want[n]>> : n \in {n \in DOMAIN want : Entry(e, n) # want[n]}}

RECURSIVE Times(_, _, _)
Times(ts, doms, i) == IF i > Len(ts) THEN 1 ELSE Cardinality({Val(ts[i], [v \in 1..Len(doms) |-> x]) : x \in IF ts[i][1] = 0 THEN {0} ELSE Range(doms[ts[i][1]])}) * Times(ts, doms, i + 1)

\* every solution's part is tabulated, and nothing twice
TableWrong(e, p, doms, sols) ==
    LET parts == {[i \in 1..Len(p.vars) |-> Val(p.vars[i], a)] : a \in sols}
    IN  {<<n, Entry(e, n)>> : n \in {n \in {"ran", "variables", "tuples", "search_nodes"} :
            ~ CASE n = "ran" -> Entry(e, n) = 1
                [] n = "variables" -> Entry(e, n) = Len(p.vars)
                [] n = "tuples" -> Cardinality(parts) <= Entry(e, n) /\ Entry(e, n) <= Times(p.vars, doms, 1)
                [] OTHER -> Entry(e, n) >= 1 /\ Entry(e, n) >= Entry(e, "tuples")}}
=============================================================================
