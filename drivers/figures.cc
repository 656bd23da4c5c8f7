// Records the figures each of the solver's own statistics components gives of itself, for
// FiguresTrace.tla.
#include "common.hh"
#include <gcs/constraints/difference/difference_simplify.hh>
#include <gcs/presolvers/auto_table/auto_table.hh>
#include <gcs/presolvers/cumulative_strengthening/cumulative_strengthening.hh>
#include <gcs/presolvers/difference_logic/difference_logic.hh>
#include <gcs/presolvers/inferred_cumulative/inferred_cumulative.hh>
#include <gcs/presolvers/inferred_disjunctive/inferred_disjunctive.hh>

#include <memory>
#include <sstream>

using namespace verif;
using namespace gcs;

namespace
{
    using Figures = std::vector<std::pair<std::string, long long>>;

    // Every figure a different number, so that none can stand for another.
    struct Setter
    {
        Rng & rng;
        Figures figures{};
        long long next = 2;

        auto number() -> long long
        {
            next += rng.in(1, 1000000);
            return rng.chance(1, 4) ? rng.in(0, 1) : next;
        }

        template <typename T_>
        auto set(const char * name, T_ & where) -> void
        {
            if constexpr (std::is_same_v<T_, bool>) {
                where = rng.chance(3, 4);
                figures.emplace_back(name, where ? 1 : 0);
            }
            else if constexpr (std::is_same_v<T_, double>) {
                auto halves = rng.in(0, 1000);
                where = static_cast<double>(halves) / 2;
                figures.emplace_back("milliseconds", halves * 500);
            }
            else {
                auto v = number();
                where = T_(v);
                figures.emplace_back(name, v);
            }
        }
    };

    auto figj(const Figures & f) -> J
    {
        std::vector<J> r;
        for (auto & [n, v] : f)
            r.push_back(arr({J{n}, J{v}}));
        return J{r};
    }

    auto show(Shards & out, const char * kind, const ComponentStats & s, const Figures & given) -> void
    {
        Figures got;
        for (auto & e : s.entries())
            got.emplace_back(e.name, e.value);
        out(ev("figures").add("kind", kind).add("given", figj(given)).add("name", s.component_name()).add("got", figj(got)).add("summary", s.summary()));
    }

    auto session(Shards & out, Rng & rng) -> void
    {
        {
            InferredDisjunctiveStats fresh;
            Setter z{rng};
            show(out, "inferred_disjunctive", fresh, {});
            InferredDisjunctiveStats s;
            z.set("donors_seen", s.donors_seen);
            z.set("tasks", s.tasks);
            z.set("conflicting_pairs", s.conflicting_pairs);
            z.set("cross_donor_pairs", s.cross_donor_pairs);
            z.set("cliques_found", s.cliques_found);
            z.set("cliques_posted", s.cliques_posted);
            z.set("clique_members_posted", s.clique_members_posted);
            z.set("largest_capacity_bound", s.largest_capacity_bound);
            z.set("certified_makespan_bound", s.certified_makespan_bound);
            z.set("resources_with_set_aside_tasks", s.resources_with_set_aside_tasks);
            z.set("converted_heights", s.converted_heights);
            z.set("bridges_derived", s.bridges_derived);
            z.set("declined_optional", s.declined_optional);
            z.set("declined_irreducible_capacity", s.declined_irreducible_capacity);
            z.set("dropped_too_small", s.dropped_too_small);
            z.set("dropped_subset", s.dropped_subset);
            z.set("dropped_dominated", s.dropped_dominated);
            z.set("dropped_over_candidate_budget", s.dropped_over_candidate_budget);
            z.set("dropped_over_posting_budget", s.dropped_over_posting_budget);
            z.set("dropped_disagreeing_length", s.dropped_disagreeing_length);
            z.set("dropped_duplicate_appearance", s.dropped_duplicate_appearance);
            z.set("declined_by_install", s.declined_by_install);
            show(out, "inferred_disjunctive", s, z.figures);
        }
        {
            InferredCumulativeStats fresh;
            Setter z{rng};
            show(out, "inferred_cumulative", fresh, {});
            InferredCumulativeStats s;
            z.set("donors_seen", s.donors_seen);
            z.set("tasks", s.tasks);
            z.set("covers_considered", s.covers_considered);
            z.set("lifting_subproblems", s.lifting_subproblems);
            z.set("lifting_subproblems_over_budget", s.lifting_subproblems_over_budget);
            z.set("cuts_found", s.cuts_found);
            z.set("cuts_uncertifiable", s.cuts_uncertifiable);
            z.set("cuts_posted", s.cuts_posted);
            z.set("non_unit_cuts_posted", s.non_unit_cuts_posted);
            z.set("multi_resource_cuts_posted", s.multi_resource_cuts_posted);
            z.set("restricted_rows_rebuilt", s.restricted_rows_rebuilt);
            z.set("largest_capacity_bound", s.largest_capacity_bound);
            z.set("certified_makespan_bound", s.certified_makespan_bound);
            z.set("declined_optional", s.declined_optional);
            z.set("declined_irreducible_capacity", s.declined_irreducible_capacity);
            z.set("donors_with_set_aside_tasks", s.donors_with_set_aside_tasks);
            z.set("converted_heights", s.converted_heights);
            z.set("dropped_dominated", s.dropped_dominated);
            z.set("dropped_over_budget", s.dropped_over_budget);
            z.set("dropped_over_state_budget", s.dropped_over_state_budget);
            z.set("declined_by_install", s.declined_by_install);
            show(out, "inferred_cumulative", s, z.figures);
        }
        {
            CumulativeStrengtheningStats fresh;
            Setter z{rng};
            show(out, "cumulative_strengthening", fresh, {});
            CumulativeStrengtheningStats s;
            z.set("donors_seen", s.donors_seen);
            z.set("donors_strengthened", s.donors_strengthened);
            z.set("capacity_units_removed", s.capacity_units_removed);
            z.set("donors_with_set_aside_tasks", s.donors_with_set_aside_tasks);
            z.set("donors_better_off_setting_heights_aside", s.donors_better_off_setting_heights_aside);
            z.set("converted_heights", s.converted_heights);
            z.set("tasks_raised", s.tasks_raised);
            z.set("declined_irreducible_capacity", s.declined_irreducible_capacity);
            z.set("declined_infeasible_donor", s.declined_infeasible_donor);
            z.set("declined_capacity_too_large", s.declined_capacity_too_large);
            z.set("declined_over_budget", s.declined_over_budget);
            z.set("declined_over_raise_budget", s.declined_over_raise_budget);
            z.set("declined_nothing_to_gain", s.declined_nothing_to_gain);
            z.set("rows_by_division", s.rows_by_division);
            z.set("rows_by_dynamic_programming", s.rows_by_dynamic_programming);
            z.set("rows_with_a_raise", s.rows_with_a_raise);
            z.set("raise_lines_emitted", s.raise_lines_emitted);
            z.set("derived_constraints", s.derived.constraints);
            z.set("derived_donors", s.derived.donors);
            z.set("derived_capacity_rows", s.derived.capacity_rows);
            z.set("derived_makespan_bounds_posted", s.derived.makespan_bounds_posted);
            show(out, "cumulative_strengthening", s, z.figures);
        }
        {
            DifferenceLogicStats fresh;
            Setter z{rng};
            show(out, "difference_logic", fresh, {});
            DifferenceLogicStats s;
            z.set("edges_lifted", s.edges_lifted);
            z.set("comparison_edges_lifted", s.comparison_edges_lifted);
            z.set("half_reified_edges_lifted", s.half_reified_edges_lifted);
            z.set("nodes", s.nodes);
            z.set("propagator_installed", s.propagator_installed);
            z.set("donor_propagators_disabled", s.donor_propagators_disabled);
            z.set("skipped_not_two_terms", s.skipped_not_two_terms);
            z.set("skipped_coefficients", s.skipped_coefficients);
            z.set("skipped_reified", s.skipped_reified);
            z.set("skipped_negated_view", s.skipped_negated_view);
            z.set("skipped_degenerate", s.skipped_degenerate);
            z.set("skipped_uncitable_row", s.skipped_uncitable_row);
            show(out, "difference_logic", s, z.figures);
        }
        {
            AutoTableStats fresh;
            Setter z{rng};
            show(out, "auto_table", fresh, {});
            AutoTableStats s;
            z.set("ran", s.ran);
            z.set("variables", s.variables);
            z.set("tuples", s.tuples);
            z.set("search_nodes", s.search_nodes);
            show(out, "auto_table", s, z.figures);
        }
        {
            DifferenceSimplificationStats fresh;
            Setter z{rng};
            show(out, "difference_logic_simplify", fresh, {});
            DifferenceSimplificationStats s;
            z.set("ran", s.ran);
            z.set("rounds", s.rounds);
            z.set("nodes", s.nodes);
            z.set("edges", s.edges);
            z.set("conditional_edges", s.conditional_edges);
            z.set("redundant_edges_removed", s.redundant_edges_removed);
            z.set("redundant_conditional_edges_removed", s.redundant_conditional_edges_removed);
            z.set("dead_edges_removed", s.dead_edges_removed);
            z.set("conditions_fixed", s.conditions_fixed);
            z.set("isolated_nodes_removed", s.isolated_nodes_removed);
            z.set("zero_weight_cycles", s.zero_weight_cycles);
            z.set("nodes_on_zero_weight_cycles", s.nodes_on_zero_weight_cycles);
            z.set("base_negative_cycle", s.base_negative_cycle);
            z.set("seconds", s.seconds);
            show(out, "difference_logic_simplify", s, z.figures);
        }
    }
}

auto main(int argc, char ** argv) -> int
{
    Args a(argc, argv);
    Shards out(a.out, "figures", a.shards);
    Rng rng(a.seed);
    for (long i = 0, rounds = a.thorough ? 4000 : 400; i < rounds; ++i) {
        out.next();
        out(ev("begin"));
        session(out, rng);
    }
}
