---------------------------- MODULE FiguresTrace ----------------------------
(* What the solver's own statistics components say of their figures: every   *)
(* figure once, under its name, with its value, and a sentence with the      *)
(* main ones.  A component nobody has counted anything in says zero.         *)
EXTENDS TraceBase, FiniteSets, SequencesExt

Init == l = 1

Names(kind) ==
    CASE kind = "auto_table" -> {"ran", "variables", "tuples", "search_nodes"}
      [] kind = "difference_logic" ->
            {"edges_lifted", "comparison_edges_lifted", "half_reified_edges_lifted", "nodes", "propagator_installed",
             "donor_propagators_disabled", "skipped_not_two_terms", "skipped_coefficients", "skipped_reified",
             "skipped_negated_view", "skipped_degenerate", "skipped_uncitable_row"}
      [] kind = "difference_logic_simplify" ->
            {"ran", "rounds", "nodes", "edges", "conditional_edges", "redundant_edges_removed",
             "redundant_conditional_edges_removed", "dead_edges_removed", "conditions_fixed", "isolated_nodes_removed",
             "zero_weight_cycles", "nodes_on_zero_weight_cycles", "base_negative_cycle", "milliseconds"}
      [] OTHER -> {}

\* figures given, or all zero when none were
Figure(given, n) == IF given = << >> THEN 0 ELSE LET g == SelectSeq(given, LAMBDA p : p[1] = n) IN g[1][2]

Cumulatives(n) == " posted Cumulative" \o (IF n = 1 THEN "" ELSE "s")

Sentence(kind, F(_)) ==
    LET T(n) == ToString(F(n)) IN
    CASE kind = "auto_table" ->
            IF F("ran") = 0 THEN "did not run"
            ELSE IF F("tuples") = 0 THEN "found no satisfying assignment of " \o T("variables") \o " variables, in " \o T("search_nodes") \o " nodes"
            ELSE T("tuples") \o " tuples over " \o T("variables") \o " variables, found in " \o T("search_nodes") \o " nodes"
      [] kind = "difference_logic" ->
            IF F("edges_lifted") = 0 THEN "lifted nothing"
            ELSE T("edges_lifted") \o " edges lifted over " \o T("nodes") \o " nodes, " \o T("comparison_edges_lifted")
                 \o " from comparisons and " \o T("half_reified_edges_lifted") \o " half-reified"
                 \o (IF F("propagator_installed") = 0 THEN ", but no propagator was installed"
                     ELSE IF F("donor_propagators_disabled") = 0 THEN ""
                     ELSE ", retiring " \o T("donor_propagators_disabled") \o " donor propagators")
      [] kind = "difference_logic_simplify" ->
            IF F("ran") = 0 THEN "did not run"
            ELSE IF F("base_negative_cycle") = 1 THEN "stopped on a negative cycle in the base graph, leaving the refutation to the propagator"
            ELSE "removed " \o T("redundant_edges_removed") \o " redundant and " \o T("dead_edges_removed") \o " dead edges, fixed "
                 \o T("conditions_fixed") \o " conditions, over " \o T("rounds") \o " rounds of " \o T("nodes") \o " nodes and "
                 \o T("edges") \o " edges"
      [] kind = "inferred_disjunctive" ->
            IF F("donors_seen") = 0 THEN "no posted Cumulative to look at"
            ELSE IF F("cliques_posted") = 0 THEN "nothing inferred, of " \o T("conflicting_pairs") \o " conflicting pairs over " \o T("tasks")
                 \o " tasks from " \o T("donors_seen") \o Cumulatives(F("donors_seen")) \o " looked at"
            ELSE T("cliques_posted") \o " clique" \o (IF F("cliques_posted") = 1 THEN "" ELSE "s") \o " posted over "
                 \o T("clique_members_posted") \o " task appearances, from " \o T("donors_seen") \o Cumulatives(F("donors_seen"))
                 \o ", the best of them worth a makespan bound of " \o T("largest_capacity_bound")
      [] kind = "inferred_cumulative" ->
            IF F("donors_seen") = 0 THEN "no posted Cumulative to look at"
            ELSE IF F("cuts_posted") = 0 THEN "nothing inferred, of " \o T("covers_considered") \o " covers over " \o T("tasks")
                 \o " tasks from " \o T("donors_seen") \o Cumulatives(F("donors_seen")) \o " looked at"
            ELSE T("cuts_posted") \o " constraint" \o (IF F("cuts_posted") = 1 THEN "" ELSE "s") \o " inferred from " \o T("donors_seen")
                 \o Cumulatives(F("donors_seen")) \o ", " \o T("non_unit_cuts_posted")
                 \o " of them with a coefficient above one, the best worth a makespan bound of " \o T("largest_capacity_bound")
      [] kind = "cumulative_strengthening" ->
            IF F("donors_seen") = 0 THEN "no posted Cumulative to look at"
            ELSE IF F("donors_strengthened") = 0 THEN "nothing strengthened, of " \o T("donors_seen") \o Cumulatives(F("donors_seen")) \o " looked at"
            ELSE T("donors_strengthened") \o " of " \o T("donors_seen") \o " posted Cumulatives strengthened, taking "
                 \o T("capacity_units_removed") \o " off their capacities and raising " \o T("tasks_raised") \o " heights"

Begin == IsEvent("begin")

Figures ==
    /\ IsEvent("figures")
    /\ Check("name", Ev.name, Ev.kind)
    /\ Check("each figure once", Len(Ev.got), Cardinality({Ev.got[j][1] : j \in 1..Len(Ev.got)}))
    /\ IF Ev.given = << >> THEN Check("nothing counted", {Ev.got[j][2] : j \in 1..Len(Ev.got)}, {0})
       ELSE Check("figures", ToSet(Ev.got), ToSet(Ev.given))
    /\ Holds("named", Names(Ev.kind) \in {{}, {Ev.got[j][1] : j \in 1..Len(Ev.got)}})
    /\ Check("sentence", Ev.summary, Sentence(Ev.kind, LAMBDA n : Figure(Ev.given, n)))

Next == Begin \/ Figures
Spec == Init /\ [][Next]_l
=============================================================================
