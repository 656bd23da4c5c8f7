// A random search heuristic over all variables of a problem.
#pragma once

#include "model.hh"

namespace verif
{
    using namespace gcs;

    inline auto brancher(Rng & rng, Problem & problem, const Ids & ids) -> BranchHeuristic
    {
        auto vars = problem.all_normal_variables();
        (void)ids;
        auto seed = static_cast<std::uint_fast32_t>(rng.in(1, 1000000));
        BranchVariableHeuristic var = variable_order::in_order(vars);
        switch (rng.in(0, 6)) {
        case 0: var = variable_order::dom(vars); break;
        case 1: var = variable_order::dom_then_deg(vars); break;
        case 2: var = variable_order::in_order(vars); break;
        case 3: var = variable_order::with_smallest_value(vars); break;
        case 4: var = variable_order::with_largest_value(vars); break;
        case 5: var = variable_order::random(vars, seed); break;
        default: var = variable_order::dom_wdeg(vars); break;
        }
        BranchValueGenerator val = value_order::smallest_in();
        switch (rng.in(0, 13)) {
        case 0: val = value_order::smallest_in(); break;
        case 1: val = value_order::smallest_out(); break;
        case 2: val = value_order::smallest_first(); break;
        case 3: val = value_order::largest_in(); break;
        case 4: val = value_order::largest_out(); break;
        case 5: val = value_order::largest_first(); break;
        case 6: val = value_order::split_smallest_first(); break;
        case 7: val = value_order::split_largest_first(); break;
        case 8: val = value_order::split_random(seed + 1); break;
        case 9: val = value_order::random(seed + 2); break;
        case 10: val = value_order::random_out(seed + 3); break;
        case 11: val = value_order::reject_random_interval(seed + 4); break;
        default: val = value_order::median(); break;
        }
        return branch_with(var, val);
    }
}
