From ba5a379a9b624b7c5d46be220695b9da657fc3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:30 +0000
Subject: [PATCH 01/42] fix: fire refined watches in the round-boundary replay
 after an idempotence claim

When any propagator claims idempotence in a round, the round's inferences are
replayed through requeue_unless_already_seen, which only consulted the coarse
triggers. A propagator woken purely by refined watches (NegativeTable, the
learned Nogoods store) then never heard about those inferences, and assignments
it forbids were returned as solutions.
---
 gcs/innards/propagators.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/gcs/innards/propagators.cc b/gcs/innards/propagators.cc
index ad66471..f13a36d 100644
--- a/gcs/innards/propagators.cc
+++ b/gcs/innards/propagators.cc
@@ -622,12 +622,7 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
-    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
-        if (v.index < _imp->iv_triggers.size())
-            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
-                if (mask & (1 << to_underlying(inf)))
-                    enqueue_if_idle(p);
-
+    auto fire_refined_watches = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         // Refined watches: fire any whose literal is now entailed, delivering the
         // payload to its owner and consuming the watch. A watch is only tested when
         // the current inference granularity is in its trigger_mask -- e.g. an `x==v`
@@ -655,19 +650,31 @@ auto Propagators::propagate(const Literals & guesses, State & state, ProofLogger
         }
     };
 
+    auto requeue = [&](const SimpleIntegerVariableID & v, const Inference inf) {
+        if (v.index < _imp->iv_triggers.size())
+            for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
+                if (mask & (1 << to_underlying(inf)))
+                    enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
+    };
+
     // A run that claimed idempotence must not be re-woken by any inference it
     // had already seen (everything recorded up to its run's end, its own
     // inferences included): the round-boundary replay uses this variant, with
     // claim_protected flagging the claimants whose runs ended after the
     // inference being replayed, when (and only when) the round produced
     // claims -- the plain requeue above keeps the claim-free hot path free of
-    // the extra load. Refined watches are consumed on their first fire in the
-    // requeue above, so this coarse-only replay does not re-fire them.
+    // the extra load. Refined watches are always fired, even a claimant's own:
+    // this replay is the only time the round's inferences are seen, so a watch
+    // that is not fired here would stay armed on an already entailed literal.
     auto requeue_unless_already_seen = [&](const SimpleIntegerVariableID & v, const Inference inf) {
         if (v.index < _imp->iv_triggers.size())
             for (auto & [p, mask] : _imp->iv_triggers[v.index].ids_and_masks)
                 if ((mask & (1 << to_underlying(inf))) && ! _imp->claim_protected[p])
                     enqueue_if_idle(p);
+
+        fire_refined_watches(v, inf);
     };
 
     // A contradiction or an abort ends a round without replaying it, so a
-- 
2.43.0


From e0c5213c8337c6148ae7bb7d4f83683c8d2f27ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 02/42] fix: reject out of range integer literals in regular
 expressions

A run of digits too long for the integer type was accumulated with a signed
overflow, so the expression silently matched some other symbol (or repeated an
atom some other number of times) instead of being rejected.
---
 gcs/constraints/regular/regex.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/regular/regex.cc b/gcs/constraints/regular/regex.cc
index 75d057f..64f3a51 100644
--- a/gcs/constraints/regular/regex.cc
+++ b/gcs/constraints/regular/regex.cc
@@ -1,12 +1,14 @@
 #include <gcs/constraints/regular/regex.hh>
 #include <gcs/exception.hh>
 
+#include <charconv>
 #include <cstddef>
 #include <map>
 #include <memory>
 #include <queue>
 #include <set>
 #include <string>
+#include <system_error>
 #include <unordered_map>
 #include <utility>
 #include <vector>
@@ -71,10 +73,10 @@ namespace
             }
             if (c >= '0' && c <= '9') {
                 long long value = 0;
-                while (i < s.size() && s[i] >= '0' && s[i] <= '9') {
-                    value = value * 10 + (s[i] - '0');
-                    ++i;
-                }
+                auto [end, ec] = std::from_chars(s.data() + i, s.data() + s.size(), value);
+                if (ec != std::errc{})
+                    throw InvalidProblemDefinitionException("Integer out of range in regular expression");
+                i = static_cast<size_t>(end - s.data());
                 tokens.push_back({Tok::Integer, Integer{value}});
                 continue;
             }
-- 
2.43.0


From 66cd9fd8085ad2ddaca75632003559a3847b6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 03/42] fix: isqrt of the largest Integer raised a spurious
 overflow

The starting point of Newton's method was computed as (n + 1) / 2, which is not
representable at every step for n == Integer::max_value(), although the square
root itself is.
---
 gcs/constraints/innards/product_bounds.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/innards/product_bounds.hh b/gcs/constraints/innards/product_bounds.hh
index 04108bd..88c13b3 100644
--- a/gcs/constraints/innards/product_bounds.hh
+++ b/gcs/constraints/innards/product_bounds.hh
@@ -42,7 +42,7 @@ namespace gcs::innards
         if (n < 2_i)
             return n;
         // Newton's method on integers: converges for any positive start >= isqrt(n).
-        auto x = n, y = (x + 1_i) / 2_i;
+        auto x = n, y = x / 2_i + x % 2_i;
         while (y < x) {
             x = y;
             y = (x + n / x) / 2_i;
-- 
2.43.0


From 8e3461c03db04752624798d2dd360727861002ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:44 +0000
Subject: [PATCH 04/42] fix: define variable_order::with_largest_value,
 declared but missing

---
 gcs/search_heuristics.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gcs/search_heuristics.cc b/gcs/search_heuristics.cc
index bcf9c0e..211167c 100644
--- a/gcs/search_heuristics.cc
+++ b/gcs/search_heuristics.cc
@@ -284,6 +284,19 @@ auto gcs::variable_order::with_smallest_value(vector<IntegerVariableID> vars) ->
         });
 }
 
+auto gcs::variable_order::with_largest_value(const Problem & problem) -> BranchVariableHeuristic
+{
+    return with_largest_value(problem.all_normal_variables());
+}
+
+auto gcs::variable_order::with_largest_value(vector<IntegerVariableID> vars) -> BranchVariableHeuristic
+{
+    return variable_order::in_order_of(
+        vars, [](const CurrentState & state, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
+            return state.upper_bound(a) > state.upper_bound(b);
+        });
+}
+
 namespace
 {
     auto random_value_generator(shared_ptr<mt19937> rand) -> BranchValueGenerator
-- 
2.43.0


From 7cfd7dd39a1b46d16f7b1248f424740523b5d4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 05/42] fix: value-consistent all-different ignored variables
 fixed before search

---
 gcs/constraints/all_different/all_different.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/all_different/all_different.cc b/gcs/constraints/all_different/all_different.cc
index 66f53b3..428c115 100644
--- a/gcs/constraints/all_different/all_different.cc
+++ b/gcs/constraints/all_different/all_different.cc
@@ -122,10 +122,11 @@ auto AllDifferent::prepare(Propagators &, State & initial_state, ProofModel * co
     // enough for staging to pay. Skipped otherwise: an unused constraint
     // state would still be saved and restored at every search node.
     if (holds_alternative<consistency::VC>(_level) || _gac_staged) {
+        // Variables that are already fixed go in too: their values have to be
+        // pushed through the clique by the first call.
         NonGacAllDifferentUnassigned unassigned{};
         for (auto & var : _sanitised_vars)
-            if (! initial_state.has_single_value(var))
-                unassigned.push_back(var);
+            unassigned.push_back(var);
         _unassigned_handle = initial_state.add_constraint_state(unassigned);
     }
 
-- 
2.43.0


From 0ab411a1f937a6718e7a7e5d6d4ff88a04dbface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 06/42] fix: all-equal was switched off before its variables
 had the same value

---
 gcs/constraints/all_equal/all_equal.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/all_equal/all_equal.cc b/gcs/constraints/all_equal/all_equal.cc
index 23fb22a..111ef4b 100644
--- a/gcs/constraints/all_equal/all_equal.cc
+++ b/gcs/constraints/all_equal/all_equal.cc
@@ -133,10 +133,11 @@ auto AllEqual::install_propagators(Propagators & propagators) -> void
                 }
             }
 
-            // Entailed once any var is single-valued: the chain equalities will
-            // have propagated that value to every other var (or contradicted),
-            // so further calls have nothing to do.
-            if (state.has_single_value(vars[0]))
+            // Entailed once the common bounds meet: the tightening above has
+            // then given that value to every var (or contradicted), so further
+            // calls have nothing to do. A single-valued var is not enough, since
+            // the bounds we used were read before this call's own inferences.
+            if (lo == hi)
                 return PropagatorState::DisableUntilBacktrack;
 
             return PropagatorState::Enable;
-- 
2.43.0


From 81b166f1a0ec6d18caaa90378164fcfa6d58d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 07/42] fix: inverse used the wrong offset for the values of
 its first array

---
 gcs/constraints/inverse/inverse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gcs/constraints/inverse/inverse.cc b/gcs/constraints/inverse/inverse.cc
index b732c7c..6c1f18b 100644
--- a/gcs/constraints/inverse/inverse.cc
+++ b/gcs/constraints/inverse/inverse.cc
@@ -115,7 +115,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
     triggers.on_change.insert(triggers.on_change.end(), _y.begin(), _y.end());
 
     if (_x_value_am1s) {
-        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer x_start, const State &, auto &, ProofLogger * const logger,
+        auto build_am1s = [](const vector<IntegerVariableID> & x, Integer y_start, const State &, auto &, ProofLogger * const logger,
                               const auto & map) {
             // recover_am1 requires at least two atoms; with one variable
             // the at-most-one is trivially true and the map is never read
@@ -123,7 +123,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             // single variable).
             if (x.size() < 2)
                 return;
-            for (Integer v = x_start; v < x_start + Integer(x.size()); ++v) {
+            for (Integer v = y_start; v < y_start + Integer(x.size()); ++v) {
                 // make an am1 for x[i] = v
                 vector<IntegerVariableCondition> xieqvs;
                 for (const auto & var : x)
@@ -136,11 +136,11 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
             }
         };
 
-        propagators.install_initialiser([x = _x, x_start = _x_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
+        propagators.install_initialiser([x = _x, y_start = _y_start, x_value_am1s = _x_value_am1s, build_am1s = build_am1s](
                                             const State & state, auto & inference, ProofLogger * const logger) -> void {
             if (! logger || logger->get_assertion_level() > AssertionLevel::Off)
                 return;
-            build_am1s(x, x_start, state, inference, logger, x_value_am1s);
+            build_am1s(x, y_start, state, inference, logger, x_value_am1s);
         });
     }
     else {
@@ -150,7 +150,7 @@ auto Inverse::install_propagators(Propagators & propagators) -> void
 
     vector<Integer> x_values;
     for (const auto & [i, _] : enumerate(_x))
-        x_values.push_back(Integer(i) + _x_start);
+        x_values.push_back(Integer(i) + _y_start);
 
     propagators.install(
         constraint_id(),
-- 
2.43.0


From 02fdcccd03068302dd8dc2e615510c1f8428d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 08/42] fix: among reread domains its own count inference had
 changed

---
 gcs/constraints/among/among.cc | 117 ++++++++++++++-------------------
 1 file changed, 51 insertions(+), 66 deletions(-)

diff --git a/gcs/constraints/among/among.cc b/gcs/constraints/among/among.cc
index 05eb298..2d101ea 100644
--- a/gcs/constraints/among/among.cc
+++ b/gcs/constraints/among/among.cc
@@ -199,38 +199,33 @@ auto Among::install_propagators(Propagators & propagators) -> void
                     throw UnexpectedException{"something's wrong, at_least_how_many != at_most_how_many option 1"};
                 }
 
-                // anything that might match actually mustn't match
-                for (const auto & var : vars) {
-                    bool all_match = true;
-                    for (const auto & val : state.each_value_immutable(var))
-                        if (! contains(values_of_interest, val))
-                            all_match = false;
+                // anything that might match actually mustn't match (going by the
+                // partition that was counted: how_many may be one of the vars,
+                // so the bounds just inferred can have changed their domains)
+                for (const auto & var : can_be_either_vars) {
+                    vector<Literal> inferences;
+                    for (const auto & val : values_of_interest)
+                        inferences.push_back(var != val);
 
-                    if (! all_match) {
-                        vector<Literal> inferences;
-                        for (const auto & val : values_of_interest)
-                            inferences.push_back(var != val);
-
-                        auto emit = [&](const ReasonLiterals &) -> void {
-                            // We need to bound the sum from BELOW: must_match vars each
-                            // contribute at least one to the Among sum, so combining the
-                            // (sum <= how_many) half with at-least-one constraints for
-                            // every must_match var derives that any extra contribution
-                            // from a non-must-match variable conflicts with the fixed
-                            // how_many = must_match_count value.
-                            if (sum_line.first && ! empty(must_match_vars)) {
-                                PolBuilder b;
-                                b.add(*sum_line.first);
-                                for (const auto & m : must_match_vars) {
-                                    if (holds_alternative<ConstantIntegerVariableID>(m))
-                                        continue;
-                                    b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(m));
-                                }
-                                b.emit(*logger, ProofLevel::Temporary);
+                    auto emit = [&](const ReasonLiterals &) -> void {
+                        // We need to bound the sum from BELOW: must_match vars each
+                        // contribute at least one to the Among sum, so combining the
+                        // (sum <= how_many) half with at-least-one constraints for
+                        // every must_match var derives that any extra contribution
+                        // from a non-must-match variable conflicts with the fixed
+                        // how_many = must_match_count value.
+                        if (sum_line.first && ! empty(must_match_vars)) {
+                            PolBuilder b;
+                            b.add(*sum_line.first);
+                            for (const auto & m : must_match_vars) {
+                                if (holds_alternative<ConstantIntegerVariableID>(m))
+                                    continue;
+                                b.add(logger->names_and_ids_tracker().need_constraint_saying_variable_takes_at_least_one_value(m));
                             }
-                        };
-                        inference.infer_all(logger, inferences, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
-                    }
+                            b.emit(*logger, ProofLevel::Temporary);
+                        }
+                    };
+                    inference.infer_all(logger, inferences, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
                 }
 
                 // now every variable is set in a way that either must
@@ -249,43 +244,33 @@ auto Among::install_propagators(Propagators & propagators) -> void
 
                 if (can_be_either_count > 0_i) {
                     // each that may or may not match must in fact match
-                    for (const auto & var : vars) {
-                        bool might_match = false;
-                        for (const auto & val : values_of_interest) {
-                            if (state.in_domain(var, val)) {
-                                might_match = true;
-                                break;
-                            }
-                        }
-
-                        if (might_match)
-                            for (const auto & val : state.each_value_mutable(var))
-                                if (! contains(values_of_interest, val)) {
-                                    auto emit = [&](const ReasonLiterals &) {
-                                        // need to point out that if var == val then var != voi for each voi
-                                        for (const auto & voi : values_of_interest)
-                                            logger->emit(
-                                                RUPProofRule{}, WPBSum{} + 1_i * (var != val) + 1_i * (var != voi) >= 1_i, ProofLevel::Temporary);
+                    for (const auto & var : can_be_either_vars)
+                        for (const auto & val : state.each_value_mutable(var))
+                            if (! contains(values_of_interest, val)) {
+                                auto emit = [&](const ReasonLiterals &) {
+                                    // need to point out that if var == val then var != voi for each voi
+                                    for (const auto & voi : values_of_interest)
+                                        logger->emit(
+                                            RUPProofRule{}, WPBSum{} + 1_i * (var != val) + 1_i * (var != voi) >= 1_i, ProofLevel::Temporary);
 
-                                        // now every other variable that contributes to the sum is
-                                        // capped at one — must_match vars (whose AM1 lines bound their
-                                        // contribution to the at-most-must_match_count tally) AND every
-                                        // other can_be_either var.
-                                        if (sum_line.second && values_of_interest.size() > 1) {
-                                            PolBuilder b;
-                                            b.add(*sum_line.second);
-                                            for (const auto & m : must_match_vars)
-                                                b.add(am1_lines->at(m));
-                                            for (const auto & other_var : can_be_either_vars)
-                                                if (var != other_var)
-                                                    b.add(am1_lines->at(other_var));
-                                            b.emit(*logger, ProofLevel::Temporary);
-                                        }
-                                    };
-                                    inference.infer(
-                                        logger, var != val, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
-                                }
-                    }
+                                    // now every other variable that contributes to the sum is
+                                    // capped at one — must_match vars (whose AM1 lines bound their
+                                    // contribution to the at-most-must_match_count tally) AND every
+                                    // other can_be_either var.
+                                    if (sum_line.second && values_of_interest.size() > 1) {
+                                        PolBuilder b;
+                                        b.add(*sum_line.second);
+                                        for (const auto & m : must_match_vars)
+                                            b.add(am1_lines->at(m));
+                                        for (const auto & other_var : can_be_either_vars)
+                                            if (var != other_var)
+                                                b.add(am1_lines->at(other_var));
+                                        b.emit(*logger, ProofLevel::Temporary);
+                                    }
+                                };
+                                inference.infer(
+                                    logger, var != val, JustifyExplicitly{emit, ThenRUP::Yes, hints::Among{owner}}, vars_and_bounds_reason);
+                            }
 
                     // now every variable is set in a way that either must
                     // match or must not match, and the count is fixed, so
-- 
2.43.0


From 516d0fb3dbaa9dd00357f62d943882b98132be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:49 +0000
Subject: [PATCH 09/42] fix: cumulative without time-tabling accepted
 overloaded assignments

---
 gcs/constraints/cumulative/cumulative.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index a90bfaa..91f4e51 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -53,6 +53,7 @@ using std::unique_ptr;
 using std::vector;
 using std::ranges::fill;
 using std::ranges::find;
+using std::ranges::all_of;
 using std::ranges::none_of;
 using std::ranges::sort;
 
@@ -1335,7 +1336,16 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
                 mand_load[(t - t_lo).raw_value] += hlb(i);
     }
 
-    for (auto idx = 0; rules.time_table && idx < range; ++idx)
+    // With time-tabling off, the overflow is still what rejects an assignment
+    // once there is nothing left to decide: otherwise rules that are allowed to
+    // miss conflicts would change the solutions, rather than the search.
+    auto check_overflow = rules.time_table || //
+        (state.has_single_value(capacity_var) && all_of(active_tasks, [&](size_t i) {
+            return is_absent(i) ||
+                (is_present(i) && state.has_single_value(starts[i]) && state.has_single_value(lengths_var[i]) &&
+                    state.has_single_value(heights_var[i]));
+        }));
+    for (auto idx = 0; check_overflow && idx < range; ++idx)
         if (mand_load[idx] > capacity) {
             auto violating_t = t_lo + Integer{idx};
 
-- 
2.43.0


From d1641d7327ddd8b4829ec1a37ac3a6dc88b0be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:20 +0000
Subject: [PATCH 10/42] fix: half-reified linear (not-)equality on a constant
 literal

---
 gcs/constraints/linear/linear_equality.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gcs/constraints/linear/linear_equality.cc b/gcs/constraints/linear/linear_equality.cc
index 8c3e4c4..7fe33ae 100644
--- a/gcs/constraints/linear/linear_equality.cc
+++ b/gcs/constraints/linear/linear_equality.cc
@@ -503,12 +503,19 @@ LinearEquality::LinearEquality(WeightedSum coeff_vars, Integer value) : ReifiedL
 
 namespace
 {
+    // A half reification whose condition is false asks for nothing.
     template <typename T_>
-    auto literal_to_reif(const Literal & cond) -> ReificationCondition
+    auto never() -> ReificationCondition
+    {
+        return T_{IntegerVariableID{ConstantIntegerVariableID{0_i}} == 1_i};
+    }
+
+    template <typename T_>
+    auto literal_to_reif(const Literal & cond, const ReificationCondition & when_true, const ReificationCondition & when_false) -> ReificationCondition
     {
         return overloaded{
-            [&](const TrueLiteral &) -> ReificationCondition { return reif::MustHold{}; },          //
-            [&](const FalseLiteral &) -> ReificationCondition { return reif::MustNotHold{}; },      //
+            [&](const TrueLiteral &) -> ReificationCondition { return when_true; },                 //
+            [&](const FalseLiteral &) -> ReificationCondition { return when_false; },               //
             [&](const IntegerVariableCondition & cond) -> ReificationCondition { return T_{cond}; } //
         }
             .visit(cond);
@@ -516,12 +523,12 @@ namespace
 }
 
 LinearEqualityIf::LinearEqualityIf(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::If>(cond))
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::If>(cond, reif::MustHold{}, never<reif::If>()))
 {
 }
 
 LinearEqualityIff::LinearEqualityIff(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::Iff>(cond))
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::Iff>(cond, reif::MustHold{}, reif::MustNotHold{}))
 {
 }
 
@@ -530,11 +537,11 @@ LinearNotEquals::LinearNotEquals(WeightedSum coeff_vars, Integer value) : Reifie
 }
 
 LinearNotEqualsIf::LinearNotEqualsIf(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::NotIf>(cond))
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::NotIf>(cond, reif::MustNotHold{}, never<reif::NotIf>()))
 {
 }
 
 LinearNotEqualsIff::LinearNotEqualsIff(WeightedSum coeff_vars, Integer value, Literal cond) :
-    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::Iff>(! cond), true)
+    ReifiedLinearEquality(move(coeff_vars), value, literal_to_reif<reif::Iff>(! cond, reif::MustHold{}, reif::MustNotHold{}), true)
 {
 }
-- 
2.43.0


From d89cf9dbea77c5000badbae57bd331fb0676b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 11/42] fix: global cardinality under GAC assumed the cover
 values were given in order

---
 gcs/constraints/global_cardinality/global_cardinality.cc | 7 +++----
 gcs/constraints/global_cardinality/global_cardinality.hh | 9 ++++-----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index 09e020b..a3a5185 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -70,8 +70,7 @@ auto GlobalCardinality::clone() const -> unique_ptr<Constraint>
 {
     auto cloned = make_unique<GlobalCardinality>(_vars, _values, _counts);
     cloned->with_consistency(_level).with_closed(_closed);
-    if (holds_alternative<consistency::BC>(_level))
-        cloned->sort_cover_values();
+    cloned->sort_cover_values();
     return cloned;
 }
 
@@ -121,8 +120,8 @@ auto GlobalCardinality::install_propagators(Propagators & propagators) -> void
     // the disjunction. This is also what lets the GAC propagator hand it the
     // no-cover-value-left case rather than raising an unjustified contradiction.
     if (_closed) {
-        // sort_cover_values() only runs on the BC path, so sort a copy rather
-        // than assume _values is ordered.
+        // clone() runs sort_cover_values(), but a constraint installed without
+        // being cloned may not be ordered, so sort a copy.
         auto sorted_cover = _values;
         sort(sorted_cover);
 
diff --git a/gcs/constraints/global_cardinality/global_cardinality.hh b/gcs/constraints/global_cardinality/global_cardinality.hh
index 0a3d34c..4e6b6ec 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.hh
+++ b/gcs/constraints/global_cardinality/global_cardinality.hh
@@ -55,11 +55,10 @@ namespace gcs
         virtual auto install_propagators(innards::Propagators &) -> void override;
 
         // The bounds propagator's Hall-interval reasoning ranges over contiguous
-        // runs of the cover values, so under consistency::BC they (and their count
-        // variables) must be in ascending order. Done in clone() rather than a
-        // constructor because the level is chosen post-construction, and both the
-        // stored constraint (which s_expr reads) and its install-time clone (which
-        // define_proof_model reads) must agree.
+        // runs of the cover values, and the GAC propagator looks values up by
+        // binary search, so they (and their count variables) must be in ascending
+        // order. Done in clone(), so that both the stored constraint (which s_expr
+        // reads) and its install-time clone (which define_proof_model reads) agree.
         auto sort_cover_values() -> void;
 
     public:
-- 
2.43.0


From 6b5e3e276e4f9c521445108f13f8dc94c06a62b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 12/42] fix: array min/max threw when its result shared a
 variable with the array

---
 gcs/constraints/min_max/min_max.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/min_max/min_max.cc b/gcs/constraints/min_max/min_max.cc
index 870f9f8..938862b 100644
--- a/gcs/constraints/min_max/min_max.cc
+++ b/gcs/constraints/min_max/min_max.cc
@@ -144,8 +144,11 @@ auto ArrayMinMax::install_propagators(Propagators & propagators) -> void
                 }
             }
 
+            // if the result shares a variable with the array then the loop above can have
+            // taken away the support it found for an earlier value. We will be woken
+            // again for that change, and the same loop will then find the contradiction.
             if (! support_1)
-                throw UnexpectedException{"missing support, bug in MinMaxArray propagator"};
+                return PropagatorState::Enable;
             else if (! support_2) {
                 // no, there's only a single var left that has any intersection with result. so, that
                 // variable has to lose any values not present in result.
-- 
2.43.0


From 44298f030db806d67b8a9b5b1266a3dd6c4334d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 13/42] fix: reified linear equality over an empty sum accepted
 a positive value

---
 gcs/constraints/linear/propagate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/linear/propagate.cc b/gcs/constraints/linear/propagate.cc
index 18ecd7a..63af49f 100644
--- a/gcs/constraints/linear/propagate.cc
+++ b/gcs/constraints/linear/propagate.cc
@@ -211,7 +211,7 @@ auto gcs::innards::propagate_linear(const auto & coeff_vars, Integer value, cons
     // need to check the empty sum case somewhere, because we only get a contradiction
     // by inferring a specific variable has to take a value that it can't
     if (coeff_vars.terms.empty()) {
-        if (! (0_i <= value)) {
+        if (equality ? (0_i != value) : ! (0_i <= value)) {
             inference.contradiction(
                 logger, JustifyUsingRUP{hint}, linear_bounds_reason(inference.want_reasons(), coeff_vars, bounds, nullopt, false, add_to_reason));
         }
-- 
2.43.0


From d57217ab2067087bf1b9ff61b2aa620a3a1ccf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 14/42] fix: values of a negated view were given in descending
 order, so branching on one by halves did not end

---
 gcs/innards/state.cc |  8 ++++++++
 gcs/innards/state.hh | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/gcs/innards/state.cc b/gcs/innards/state.cc
index ba0f41a..f91bd53 100644
--- a/gcs/innards/state.cc
+++ b/gcs/innards/state.cc
@@ -646,6 +646,10 @@ auto State::each_value_immutable(const VarType_ & var) const -> generator<Intege
 {
     auto [actual_var, negate_first, then_add] = deview(var);
 
+    // Negation reverses the order, and values are always given in ascending order.
+    if (negate_first)
+        return each_value_generator(copy_of_values(var), [](Integer v) { return v; });
+
     auto apply = [negate_first = negate_first, then_add = then_add](Integer v) -> Integer { return apply_view(v, negate_first, then_add); };
 
     return visit_actual(
@@ -658,6 +662,10 @@ auto State::each_value_mutable(const VarType_ & var) const -> generator<Integer>
 {
     auto [actual_var, negate_first, then_add] = deview(var);
 
+    // Negation reverses the order, and values are always given in ascending order.
+    if (negate_first)
+        return each_value_generator(copy_of_values(var), [](Integer v) { return v; });
+
     auto apply = [negate_first = negate_first, then_add = then_add](Integer v) -> Integer { return apply_view(v, negate_first, then_add); };
 
     return visit_actual(
diff --git a/gcs/innards/state.hh b/gcs/innards/state.hh
index 29359f8..1b81b69 100644
--- a/gcs/innards/state.hh
+++ b/gcs/innards/state.hh
@@ -430,6 +430,11 @@ namespace gcs::innards
         auto for_each_value_immutable(const VarType_ & var, Callback_ && cb) const -> void
         {
             auto [actual_var, negate_first, then_add] = state_detail::deview(var);
+            // Negation reverses the order, and values are always given in ascending order.
+            if (negate_first) {
+                copy_of_values(var).for_each([&](Integer i) { return cb(i); });
+                return;
+            }
             state_detail::visit_actual(
                 actual_var,
                 [&, negate_first = negate_first, then_add = then_add](const SimpleIntegerVariableID & v) {
@@ -451,6 +456,11 @@ namespace gcs::innards
         auto for_each_value_mutable(const VarType_ & var, Callback_ && cb) const -> void
         {
             auto [actual_var, negate_first, then_add] = state_detail::deview(var);
+            // Negation reverses the order, and values are always given in ascending order.
+            if (negate_first) {
+                copy_of_values(var).for_each([&](Integer i) { return cb(i); });
+                return;
+            }
             state_detail::visit_actual(
                 actual_var,
                 [&, negate_first = negate_first, then_add = then_add](const SimpleIntegerVariableID & v) {
-- 
2.43.0


From 582aca9b81018d7f1aaa7cf438180bb58ced6b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 15/42] fix: iterating over the bits of a variable read a
 temporary after it had gone, so a view objective could not be proof logged
 with GCC 14

---
 gcs/innards/proofs/names_and_ids_tracker.cc | 4 +++-
 gcs/innards/proofs/names_and_ids_tracker.hh | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index bfb8ccc..e698806 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -672,7 +672,9 @@ auto NamesAndIDsTracker::negative_bit_coefficient(const SimpleOrProofOnlyInteger
     return it->second.first;
 }
 
-auto NamesAndIDsTracker::each_bit(const SimpleOrProofOnlyIntegerVariableID & id) -> generator<pair<Integer, XLiteral>>
+// By value: a generator outlives the full-expression that made it, and callers
+// iterate over each_bit(v) with a v whose conversion is a temporary.
+auto NamesAndIDsTracker::each_bit(SimpleOrProofOnlyIntegerVariableID id) -> generator<pair<Integer, XLiteral>>
 {
     auto it = _imp->integer_variable_bits_to_size_and_proof_vars.find(id);
     if (it == _imp->integer_variable_bits_to_size_and_proof_vars.end())
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 905f8ed..8b2b30c 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -415,7 +415,7 @@ namespace gcs::innards
          * Call the supplied function for each bit making up the given variable, specifying
          * its raw PB literal and coefficient.
          */
-        auto each_bit(const SimpleOrProofOnlyIntegerVariableID &) -> std::generator<std::pair<Integer, XLiteral>>;
+        auto each_bit(SimpleOrProofOnlyIntegerVariableID) -> std::generator<std::pair<Integer, XLiteral>>;
 
         /**
          * Get the name and coefficient for the bit position in the representation of the given var.
-- 
2.43.0


From 5be52e56b32aa364d4f893f967a9a3ae41158183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 16/42] fix: give the smart table inside LexSmartTable and
 AtMostOneSmartTable its owner's identity

What such a table asserted in a proof named a constraint called
"unnamed", which nobody posted, so no later tool could tell what the
assertion follows from.
---
 gcs/constraints/at_most_one/at_most_one.cc | 3 +++
 gcs/constraints/lex/lex_smart_table.cc     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/gcs/constraints/at_most_one/at_most_one.cc b/gcs/constraints/at_most_one/at_most_one.cc
index 4ee4fb4..ecd58de 100644
--- a/gcs/constraints/at_most_one/at_most_one.cc
+++ b/gcs/constraints/at_most_one/at_most_one.cc
@@ -192,6 +192,9 @@ auto AtMostOneSmartTable::prepare(Propagators & propagators, State & initial_sta
     all_vars.emplace_back(_val);
 
     SmartTable smt_table{all_vars, tuples};
+    // The child must carry this constraint's identity, so that what it asserts
+    // in a proof names a constraint that was posted.
+    smt_table.set_constraint_id(constraint_id());
     move(smt_table).install(propagators, initial_state, optional_model);
 
     return false;
diff --git a/gcs/constraints/lex/lex_smart_table.cc b/gcs/constraints/lex/lex_smart_table.cc
index b4f783f..29a57e7 100644
--- a/gcs/constraints/lex/lex_smart_table.cc
+++ b/gcs/constraints/lex/lex_smart_table.cc
@@ -63,6 +63,9 @@ auto LexSmartTable::prepare(Propagators & propagators, State & initial_state, Pr
     all_vars.insert(all_vars.end(), _vars_2.begin(), _vars_2.end());
 
     auto smt_table = SmartTable{all_vars, tuples};
+    // The child must carry this constraint's identity, so that what it asserts
+    // in a proof names a constraint that was posted.
+    smt_table.set_constraint_id(constraint_id());
     move(smt_table).install(propagators, initial_state, optional_model);
 
     return false;
-- 
2.43.0


From bcc2a2deb38b455ac4de8f5296523549633d95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:58 +0000
Subject: [PATCH 17/42] fix: a smart table's asserted removals say what they
 depend on

With assertions in place of justifications, a value removed by a smart
table was asserted with no reason, that is, as if no solution had it,
which is false below the root.
---
 gcs/constraints/smart_table/smart_table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index 06b6e4e..081ee6b 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -533,7 +533,7 @@ namespace
         else {
             for (const auto & var : vars) {
                 for (const auto & value : unsupported[var]) {
-                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, NoReason{});
+                    inference.infer_not_equal(logger, var, value, JustifyUsingRUP{hints::SmartTable{owner}}, reason);
                 }
             }
         }
-- 
2.43.0


From 5072fc17c553a3bf9c94eadd580aba5c2baeec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 18/42] fix: state a maximised variable's improving constraint
 over the variable in proofs

If a constraint used the negation of the variable being maximised, the
line written after each solution to identify the improving constraint was
over the negation's own bits, and not the constraint the model's min: line
gives rise to, so proof checking failed.
---
 gcs/innards/proofs/proof_logger.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index f9d4520..2e7c1f3 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -62,6 +62,18 @@ using namespace gcs::innards;
 
 namespace
 {
+    // The objective, spelled the way the OPB min: line spells it. A plain
+    // negation, which is what Problem::maximise() stores, is written there over
+    // the underlying variable's bits (see ProofModel::write_preamble), even if
+    // a constraint then goes on to register a bit vector for the same view.
+    auto as_in_objective(const IntegerVariableID & var) -> WPBSum
+    {
+        if (const auto * view = std::get_if<ViewOfIntegerVariableID>(&var))
+            if (view->negate_first && view->then_add == 0_i)
+                return WPBSum{} + -1_i * view->actual_variable;
+        return WPBSum{} + 1_i * var;
+    }
+
     const auto INDENT_WIDTH = 5;
 
     [[nodiscard]] auto deview(const VariableConditionFrom<ViewOfIntegerVariableID> & cond) -> VariableConditionFrom<SimpleIntegerVariableID>
@@ -310,7 +322,7 @@ auto ProofLogger::solution(const vector<pair<IntegerVariableID, Integer>> & all_
         visit(
             [&](const auto & id) {
                 _imp->proof << "e ";
-                emit_inequality_to(names_and_ids_tracker(), WPBSum{} + 1_i * id <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
+                emit_inequality_to(names_and_ids_tracker(), as_in_objective(id) <= optional_minimise_variable_and_value->second - 1_i, _imp->proof);
                 _imp->proof << ":" << relative_proof_line(_imp->proof_line, _imp->proof_line.number) << ";\n";
 
                 emit_rup_proof_line(WPBSum{} + 1_i * (id < optional_minimise_variable_and_value->second) >= 1_i, ProofLevel::Top);
@@ -393,7 +405,7 @@ auto ProofLogger::conclude_optimality(IntegerVariableID var, Integer value) -> v
 
 auto ProofLogger::conclude_bounds(IntegerVariableID minimise_variable, Integer lower, Integer upper) -> void
 {
-    emit_rup_proof_line(WPBSum{} + 1_i * minimise_variable >= lower, ProofLevel::Top);
+    emit_rup_proof_line(as_in_objective(minimise_variable) >= lower, ProofLevel::Top);
     _imp->proof << "output NONE;\n";
     _imp->proof << "conclusion BOUNDS " << lower << " " << upper << ";\n";
     end_proof();
-- 
2.43.0


From 6a47ee299e7dc7f8685cb3cc82325884cd5857f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 19/42] fix: name the sorted values of each ArgSort apart in
 proofs

---
 gcs/constraints/sort/arg_sort.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcs/constraints/sort/arg_sort.cc b/gcs/constraints/sort/arg_sort.cc
index 9d81d59..03720f8 100644
--- a/gcs/constraints/sort/arg_sort.cc
+++ b/gcs/constraints/sort/arg_sort.cc
@@ -128,7 +128,7 @@ auto ArgSort::define_proof_model(ProofModel & model, const State &) -> void
     // match, so the in-proof introduction of y's atoms lines up with cake's.
     vector<IntegerVariableID> y_ids{_y.begin(), _y.end()};
     for (size_t j = 0; j < _y.size(); ++j)
-        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + std::to_string(j), IntegerVariableProofRepresentation::Bits,
+        model.set_up_integer_variable(_y[j], _lowest_x, _highest_x, "argsort_y_" + std::to_string(_y[j].index), IntegerVariableProofRepresentation::Bits,
             CakeBitNaming{.id = _constraint_id,
                 .indices = {static_cast<long long>(j)},
                 .value_annotation = "y",
-- 
2.43.0


From 8c90430e970b31ab8f0e2f0dbf0c948e7754e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:20 +0000
Subject: [PATCH 20/42] fix: introduce the literals of conditions over a view
 that the same sum registers

---
 gcs/innards/proofs/names_and_ids_tracker.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index e698806..b881a92 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -633,6 +633,17 @@ auto NamesAndIDsTracker::need_all_proof_names_in(const SumOf<Weighted<PseudoBool
             [&](const ProofBitVariable &) {}                  //
         }
             .visit(v);
+
+    // A view registered by a later term than a condition over it changes what that
+    // condition is called, so what it is called now may need introducing too.
+    for (auto & [_, v] : sum.terms)
+        if (auto lit = std::get_if<ProofLiteral>(&v))
+            overloaded{
+                [&](const TrueLiteral &) {},                                                        //
+                [&](const FalseLiteral &) {},                                                       //
+                [&]<typename T_>(const VariableConditionFrom<T_> & cond) { need_proof_name(cond); } //
+            }
+                .visit(simplify_literal(*this, *lit));
 }
 
 auto NamesAndIDsTracker::need_all_proof_names_in(const Literals & lits) -> void
-- 
2.43.0


From b9d65e88aa010ed1a598a2a09c0ddc3393b3d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:00 +0000
Subject: [PATCH 21/42] fix: refuse .scp keywords that only begin like a known
 one

---
 gcs/scp_reader.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/gcs/scp_reader.cc b/gcs/scp_reader.cc
index bc7bfc7..a4969db 100644
--- a/gcs/scp_reader.cc
+++ b/gcs/scp_reader.cc
@@ -51,6 +51,7 @@
 #include <gcs/variable_condition.hh>
 
 #include <charconv>
+#include <initializer_list>
 #include <optional>
 #include <span>
 #include <unordered_map>
@@ -228,6 +229,18 @@ namespace
         return result;
     }
 
+    // Is `op` exactly one of the stems followed by one of the suffixes? The
+    // families below take a keyword apart, so anything that merely starts like
+    // one of them has to be turned away first.
+    auto is_keyword_of(const string & op, std::initializer_list<const char *> stems, std::initializer_list<const char *> suffixes) -> bool
+    {
+        for (auto stem : stems)
+            for (auto suffix : suffixes)
+                if (op == string{stem} + suffix)
+                    return true;
+        return false;
+    }
+
     // For the equals-style families (equals / not_equals and their lin_
     // counterparts): map a keyword's reification suffix to a (condition, flipped)
     // pair. `flipped` is the cosmetic not-equals-iff flag (ReifiedEquals::_neq /
@@ -1287,16 +1300,17 @@ auto gcs::read_scp(Problem & problem, string_view text) -> ScpModel
                     resolve_variable_list(variables, terms[3], "the lex_smart_table second variable list")},
                 label);
         }
-        else if (op.starts_with("lex_")) {
+        else if (is_keyword_of(op, {"lex_less_than", "lex_less_equal", "lex_greater_than", "lex_greater_equal"},
+                     {"", "_if", "_iff", "_not", "_not_if"})) {
             read_lex(problem, variables, op, terms, label);
         }
-        else if (op.starts_with("less_") || op.starts_with("greater_")) {
+        else if (is_keyword_of(op, {"less_than", "less_equal", "greater_than", "greater_equal"}, {"", "_if", "_iff"})) {
             read_comparison(problem, variables, op, terms, label);
         }
-        else if (op.starts_with("lin_")) {
+        else if (is_keyword_of(op, {"lin_equals", "lin_not_equals", "lin_less_equal"}, {"", "_if", "_iff"})) {
             read_linear(problem, variables, op, terms, label);
         }
-        else if (op.starts_with("equals") || op.starts_with("not_equals")) {
+        else if (is_keyword_of(op, {"equals", "not_equals"}, {"", "_if", "_iff"})) {
             read_equals(problem, variables, op, terms, label);
         }
         else
-- 
2.43.0


From 02169edc794c4d845df2d8fe736fa0435847070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 22/42] fix: refuse an MDD whose edges or accepting nodes are
 not in the diagram

---
 gcs/constraints/mdd/mdd.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gcs/constraints/mdd/mdd.cc b/gcs/constraints/mdd/mdd.cc
index b2a8e58..3eb3690 100644
--- a/gcs/constraints/mdd/mdd.cc
+++ b/gcs/constraints/mdd/mdd.cc
@@ -446,6 +446,14 @@ MDD::MDD(vector<IntegerVariableID> v, vector<vector<unordered_map<Integer, long>
     for (size_t i = 0; i < _vars.size(); ++i)
         if (cmp_less(_layer_transitions[i].size(), _nodes_per_layer[i]))
             throw InvalidProblemDefinitionException{format("MDD: layer_transitions[{}] must have one entry per node in layer {}", i, i)};
+    for (size_t i = 0; i < _vars.size(); ++i)
+        for (long q = 0; q < _nodes_per_layer[i]; ++q)
+            for (const auto & [_, target] : _layer_transitions[i][q])
+                if (target < -1L || target >= _nodes_per_layer[i + 1])
+                    throw InvalidProblemDefinitionException{format("MDD: layer_transitions[{}] leads to a node that is not in layer {}", i, i + 1)};
+    for (const auto & terminal : _accepting_terminals)
+        if (terminal < 0L || terminal >= _nodes_per_layer.back())
+            throw InvalidProblemDefinitionException{"MDD: accepting_terminals must be nodes of the final layer"};
 }
 
 auto MDD::clone() const -> unique_ptr<Constraint>
-- 
2.43.0


From 6a75c108840c6430fd487cdd168ea13c8d59b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 23/42] fix: refuse a Regular whose automaton names states it
 does not have

---
 gcs/constraints/regular/regular.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/gcs/constraints/regular/regular.cc b/gcs/constraints/regular/regular.cc
index dc9b600..8d64348 100644
--- a/gcs/constraints/regular/regular.cc
+++ b/gcs/constraints/regular/regular.cc
@@ -516,6 +516,20 @@ auto Regular::clone() const -> unique_ptr<Constraint>
 
 auto Regular::prepare(Propagators & propagators, State & initial_state, ProofModel * const optional_model) -> bool
 {
+    if (! _regex) {
+        auto is_state = [&](long q) { return q >= 0 && q < _num_states; };
+        if (_num_states < 1 || cmp_less(_transitions.size(), _num_states))
+            throw InvalidProblemDefinitionException{"Regular: there must be at least one state, and transitions for every state"};
+        for (long q = 0; q < _num_states; ++q)
+            for (const auto & [_, targets] : _transitions[q])
+                for (const auto & target : targets)
+                    if (! is_state(target))
+                        throw InvalidProblemDefinitionException{"Regular: a transition leads to something that is not a state"};
+        for (const auto & f : _final_states)
+            if (! is_state(f))
+                throw InvalidProblemDefinitionException{"Regular: a final state is not a state"};
+    }
+
     // The three strategies share this constraint's OPB encoding and its
     // inferences; they differ only in the proof scaffolding, so each is a
     // distinct install path over the same automaton. Upfront is this class's
-- 
2.43.0


From fc4276f8bd68d28b0be42e3c5fb2a83b245e831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 24/42] fix: refuse a GlobalCardinality with different numbers
 of values and counts

---
 gcs/constraints/global_cardinality/global_cardinality.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcs/constraints/global_cardinality/global_cardinality.cc b/gcs/constraints/global_cardinality/global_cardinality.cc
index a3a5185..90ff9fd 100644
--- a/gcs/constraints/global_cardinality/global_cardinality.cc
+++ b/gcs/constraints/global_cardinality/global_cardinality.cc
@@ -1,6 +1,7 @@
 #include <gcs/constraint.hh>
 #include <gcs/constraints/global_cardinality/global_cardinality.hh>
 #include <gcs/constraints/global_cardinality/hints.hh>
+#include <gcs/exception.hh>
 #include <gcs/expression.hh>
 #include <gcs/innards/inference_tracker.hh>
 #include <gcs/innards/proofs/names_and_ids_tracker.hh>
@@ -34,6 +35,8 @@ using std::ranges::sort;
 GlobalCardinality::GlobalCardinality(vector<IntegerVariableID> vars, vector<Integer> values, vector<IntegerVariableID> counts) :
     _vars(move(vars)), _values(move(values)), _counts(move(counts))
 {
+    if (_values.size() != _counts.size())
+        throw InvalidProblemDefinitionException{"GlobalCardinality: values and counts must have the same size"};
 }
 
 auto GlobalCardinality::with_consistency(GlobalCardinalityConsistency level) -> GlobalCardinality &
-- 
2.43.0


From 1ee694c1f1a9c9c03385bc11d6c53dc93481545a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:28 +0000
Subject: [PATCH 25/42] fix: refuse a Knapsack with more or fewer coefficients
 than variables

---
 gcs/constraints/knapsack/knapsack.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gcs/constraints/knapsack/knapsack.cc b/gcs/constraints/knapsack/knapsack.cc
index a6b9246..0d07fac 100644
--- a/gcs/constraints/knapsack/knapsack.cc
+++ b/gcs/constraints/knapsack/knapsack.cc
@@ -592,10 +592,9 @@ auto Knapsack::prepare(Propagators &, State & initial_state, ProofModel * const)
 
     if (_coeffs.empty())
         throw InvalidProblemDefinitionException{"empty knapsack coefficients"};
-    unsigned n_vars = _coeffs.begin()->size();
 
     for (auto & c : _coeffs)
-        if (c.size() != n_vars)
+        if (c.size() != _vars.size())
             throw InvalidProblemDefinitionException{"not sure what to do about different coefficient array sizes for knapsack"};
 
     for (auto & cc : _coeffs)
-- 
2.43.0


From 12a91a6b1c4883a7a7c1880e638abbcb70ca6329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 26/42] fix: filter a SmartTable over the underlying variables
 of views and repeated variables

---
 gcs/constraints/smart_table/smart_table.cc | 70 ++++++++++++----------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index 081ee6b..c98b225 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -132,7 +132,7 @@ namespace
         overloaded{
             [&](ConstantIntegerVariableID) -> void { throw UnimplementedException{}; }, //
             [&](ViewOfIntegerVariableID v) -> void {
-                auto mod_vec = vector<Integer>(vdom[v.actual_variable].size(), 0_i);
+                auto mod_vec = vector<Integer>(vec.size(), 0_i);
                 for (unsigned i = 0; i < vec.size(); i++) {
                     mod_vec[i] = (v.negate_first ? -1_i : 1_i) * (vec[i] - v.then_add);
                 }
@@ -186,10 +186,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val < dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < dom_2[dom_2.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < dom_2[dom_2.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -198,10 +198,10 @@ namespace
                     copy_if(dom_1, back_inserter(new_dom_1), [&](Integer val) { return val <= dom_2[dom_2.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) >= (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 >= (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 >= dom_1[0]));
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) < (dom_2[dom_2.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 < (dom_2[dom_2.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_2 < dom_2[dom_2.size() - 1] + 1_i));
                     }
                     break;
@@ -215,7 +215,7 @@ namespace
                             vector<Integer> discarded_dom1;
                             set_difference(dom_1, dom_2, back_inserter(discarded_dom1));
                             for (const auto & val : discarded_dom1) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != val, state, inference,
                                     singleton_reason(binary_entry.var_2 != val));
                             }
                         }
@@ -224,7 +224,7 @@ namespace
                             vector<Integer> discarded_dom2;
                             set_difference(dom_2, dom_1, back_inserter(discarded_dom2));
                             for (const auto & val : discarded_dom2) {
-                                log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != val, state, inference,
+                                log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != val, state, inference,
                                     singleton_reason(binary_entry.var_1 != val));
                             }
                         }
@@ -235,7 +235,7 @@ namespace
                         new_dom_1 = dom_1;
                         set_difference(dom_2, dom_1, back_inserter(new_dom_2));
                         if (logger && new_dom_2.size() < dom_2.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) != (dom_1[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 != (dom_1[0]), state, inference,
                                 singleton_reason(binary_entry.var_1 == dom_1[0]));
                         }
                     }
@@ -243,7 +243,7 @@ namespace
                         new_dom_2 = dom_2;
                         set_difference(dom_1, dom_2, back_inserter(new_dom_1));
                         if (logger && new_dom_1.size() < dom_1.size() && logger->get_assertion_level() == AssertionLevel::Off) {
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) != (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 != (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 == dom_2[0]));
                         }
                     }
@@ -257,10 +257,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val < dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0] + 1_i), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0] + 1_i), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < dom_1[dom_1.size() - 1], state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < dom_1[dom_1.size() - 1], state, inference,
                                 singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -269,10 +269,10 @@ namespace
                     copy_if(dom_2, back_inserter(new_dom_2), [&](Integer val) { return val <= dom_1[dom_1.size() - 1]; });
                     if (logger && logger->get_assertion_level() == AssertionLevel::Off) {
                         if (new_dom_1.size() < dom_1.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_1) >= (dom_2[0]), state, inference,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_1 >= (dom_2[0]), state, inference,
                                 singleton_reason(binary_entry.var_2 >= dom_2[0]));
                         if (new_dom_2.size() < dom_2.size())
-                            log_filtering_inference(logger, tuple_selector, deview(binary_entry.var_2) < (dom_1[dom_1.size() - 1] + 1_i), state,
+                            log_filtering_inference(logger, tuple_selector, binary_entry.var_2 < (dom_1[dom_1.size() - 1] + 1_i), state,
                                 inference, singleton_reason(binary_entry.var_1 < dom_1[dom_1.size() - 1] + 1_i));
                     }
                     break;
@@ -355,8 +355,10 @@ namespace
         return true;
     }
 
-    auto remove_supported(VariableDomainMap & unsupported, IntegerVariableID var, vector<Integer> & to_remove) -> void
+    auto remove_supported(VariableDomainMap & unsupported, const VariableDomainMap & supported_by_tree, const IntegerVariableID & var_or_view) -> void
     {
+        auto var = deview(var_or_view);
+        const auto & to_remove = supported_by_tree.at(var);
         vector<Integer> new_unsupported{};
         auto unsupported_set = set(unsupported[var].begin(), unsupported[var].end());
         auto to_remove_set = set(to_remove.begin(), to_remove.end());
@@ -375,19 +377,11 @@ namespace
                 // Collect supported vals for this tree
                 overloaded{
                     [&](const BinaryEntry & binary_entry) {
-                        auto supported_var_1 = get_for_actual_var(supported_by_tree, binary_entry.var_1);
-                        auto supported_var_2 = get_for_actual_var(supported_by_tree, binary_entry.var_2);
-                        remove_supported(unsupported, binary_entry.var_1, supported_var_1);
-                        remove_supported(unsupported, binary_entry.var_2, supported_var_2);
+                        remove_supported(unsupported, supported_by_tree, binary_entry.var_1);
+                        remove_supported(unsupported, supported_by_tree, binary_entry.var_2);
                     }, //
-                    [&](const UnarySetEntry & unary_set_entry) {
-                        auto supported = get_for_actual_var(supported_by_tree, unary_set_entry.var);
-                        remove_supported(unsupported, unary_set_entry.var, supported);
-                    }, //
-                    [&](const UnaryValueEntry & unary_val_entry) {
-                        auto supported = get_for_actual_var(supported_by_tree, unary_val_entry.var);
-                        remove_supported(unsupported, unary_val_entry.var, supported);
-                    } //
+                    [&](const UnarySetEntry & unary_set_entry) { remove_supported(unsupported, supported_by_tree, unary_set_entry.var); },  //
+                    [&](const UnaryValueEntry & unary_val_entry) { remove_supported(unsupported, supported_by_tree, unary_val_entry.var); } //
                 }
                     .visit(edge);
             }
@@ -401,11 +395,11 @@ namespace
         for (const auto & entry : tuple) {
             overloaded{
                 [&](const BinaryEntry & binary_entry) {
-                    vars_in_tuple.emplace_back(binary_entry.var_1);
-                    vars_in_tuple.emplace_back(binary_entry.var_2);
-                },                                                                                                //
-                [&](const UnarySetEntry & unary_set_entry) { vars_in_tuple.emplace_back(unary_set_entry.var); },  //
-                [&](const UnaryValueEntry & unary_val_entry) { vars_in_tuple.emplace_back(unary_val_entry.var); } //
+                    vars_in_tuple.emplace_back(deview(binary_entry.var_1));
+                    vars_in_tuple.emplace_back(deview(binary_entry.var_2));
+                },                                                                                                        //
+                [&](const UnarySetEntry & unary_set_entry) { vars_in_tuple.emplace_back(deview(unary_set_entry.var)); },  //
+                [&](const UnaryValueEntry & unary_val_entry) { vars_in_tuple.emplace_back(deview(unary_val_entry.var)); } //
             }
                 .visit(entry);
         }
@@ -422,7 +416,9 @@ namespace
         ProofLogger * const logger, bool short_reasons, const ConstraintID & owner) -> void
     {
         VariableDomainMap unsupported{};
-        // Initialise unsupported values to everything in each variable's current domain.
+        // Initialise unsupported values to everything in each variable's current domain. Both
+        // this and supported_by_tree, below, are over the underlying variables, and vars holds
+        // each of those once.
         for (const auto & var : vars) {
             for (auto value : state.each_value_immutable(var)) {
                 unsupported[var].emplace_back(value);
@@ -873,9 +869,17 @@ auto SmartTable::install_propagators(Propagators & propagators) -> void
 
     vector<Forest> forests = build_forests(_tuples);
 
+    // The propagator works over the underlying variables, which could be mentioned
+    // several times, either directly or through different views.
+    vector<IntegerVariableID> actual_vars;
+    set<IntegerVariableID> seen;
+    for (const auto & var : _vars)
+        if (seen.insert(deview(var)).second)
+            actual_vars.push_back(deview(var));
+
     propagators.install(
         constraint_id(),
-        [selectors = _selectors, vars = _vars, tuples = move(_tuples), forests = move(forests), pb_selectors = move(_pb_selectors),
+        [selectors = _selectors, vars = move(actual_vars), tuples = move(_tuples), forests = move(forests), pb_selectors = move(_pb_selectors),
             short_reasons = _short_reasons,
             owner = constraint_id()](const State & state, auto & inference, ProofLogger * const logger) -> PropagatorState {
             auto reason = eager_reason(generic_reason(vars), state);
-- 
2.43.0


From f4197d36a51dd4df1bfa8348d2bfe9a02f540707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:10 +0000
Subject: [PATCH 27/42] fix: filter a SmartTable on the entries that close a
 cycle

---
 gcs/constraints/smart_table/smart_table.cc | 42 +++++++++++++---------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index c98b225..fd3a04a 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -106,6 +106,7 @@ namespace
     using BinaryEntryData = tuple<IntegerVariableID, IntegerVariableID, SmartEntryConstraint>;
     using TreeEdges = vector<vector<SmartEntry>>;
     using Forest = vector<TreeEdges>;
+    using AdjacentEdges = unordered_map<IntegerVariableID, vector<std::pair<size_t, SmartEntry>>>;
 
     // Annoying workaround access functions to make sure this all works with views
     auto get_for_actual_var(VariableDomainMap & vdom, const IntegerVariableID & v) -> vector<Integer>
@@ -536,30 +537,35 @@ namespace
     }
 
     auto build_tree(const IntegerVariableID & root, int current_level, vector<vector<SmartEntry>> & entry_tree,
-        unordered_map<IntegerVariableID, bool> & node_visited, const unordered_map<IntegerVariableID, vector<SmartEntry>> & adjacent_edges) -> void
+        unordered_map<IntegerVariableID, bool> & node_visited, set<size_t> & edge_visited, const AdjacentEdges & adjacent_edges) -> void
     {
         node_visited[deview(root)] = true;
 
         // Simple recursive traverse
         // Note: Perhaps we should build the tree in a "smarter" form e.g. make sure var_1 is always the node
         //       closer to the root.
-        for (const auto & edge : adjacent_edges.at(deview(root))) {
+        for (const auto & [edge_idx, edge] : adjacent_edges.at(deview(root))) {
+            // A binary entry is adjacent to both of its variables.
+            if (! edge_visited.insert(edge_idx).second)
+                continue;
+
+            // Note that if both variables of a binary entry have been visited then it closes a
+            // cycle. It must still be filtered on, or it would never be enforced, although the
+            // filtering is not necessarily domain consistent then.
+            entry_tree[current_level].emplace_back(edge);
             overloaded{
                 [&](BinaryEntry binary_entry) {
                     if (! node_visited[deview(binary_entry.var_1)]) {
-                        entry_tree[current_level].emplace_back(edge);
                         entry_tree.emplace_back();
-
-                        build_tree(binary_entry.var_1, current_level + 1, entry_tree, node_visited, adjacent_edges);
+                        build_tree(binary_entry.var_1, current_level + 1, entry_tree, node_visited, edge_visited, adjacent_edges);
                     }
                     else if (! node_visited[deview(binary_entry.var_2)]) {
-                        entry_tree[current_level].emplace_back(edge);
                         entry_tree.emplace_back();
-                        build_tree(binary_entry.var_2, current_level + 1, entry_tree, node_visited, adjacent_edges);
+                        build_tree(binary_entry.var_2, current_level + 1, entry_tree, node_visited, edge_visited, adjacent_edges);
                     }
-                },                                                                             //
-                [&](const UnarySetEntry &) { entry_tree[current_level].emplace_back(edge); },  //
-                [&](const UnaryValueEntry &) { entry_tree[current_level].emplace_back(edge); } //
+                },                              //
+                [&](const UnarySetEntry &) {},  //
+                [&](const UnaryValueEntry &) {} //
             }
                 .visit(edge);
         }
@@ -570,24 +576,26 @@ namespace
         vector<Forest> forests{};
         for (const auto & current_tuple : tuples) {
             unordered_map<IntegerVariableID, bool> node_visited;
-            unordered_map<IntegerVariableID, vector<SmartEntry>> adjacent_edges;
+            set<size_t> edge_visited;
+            AdjacentEdges adjacent_edges;
 
             // Get all the vars in the tuple and record adjacencies
-            for (const auto & entry : current_tuple) {
+            for (size_t edge_idx = 0; edge_idx < current_tuple.size(); ++edge_idx) {
+                const auto & entry = current_tuple[edge_idx];
                 overloaded{
                     [&](const BinaryEntry & binary_entry) {
                         node_visited[deview(binary_entry.var_1)] = false;
                         node_visited[deview(binary_entry.var_2)] = false;
-                        adjacent_edges[deview(binary_entry.var_1)].emplace_back(binary_entry);
-                        adjacent_edges[deview(binary_entry.var_2)].emplace_back(binary_entry);
+                        adjacent_edges[deview(binary_entry.var_1)].emplace_back(edge_idx, binary_entry);
+                        adjacent_edges[deview(binary_entry.var_2)].emplace_back(edge_idx, binary_entry);
                     }, //
                     [&](const UnaryValueEntry & unary_val_entry) {
                         node_visited[deview(unary_val_entry.var)] = false;
-                        adjacent_edges[deview(unary_val_entry.var)].emplace_back(unary_val_entry);
+                        adjacent_edges[deview(unary_val_entry.var)].emplace_back(edge_idx, unary_val_entry);
                     }, //
                     [&](const UnarySetEntry & unary_set_entry) {
                         node_visited[deview(unary_set_entry.var)] = false;
-                        adjacent_edges[deview(unary_set_entry.var)].emplace_back(unary_set_entry);
+                        adjacent_edges[deview(unary_set_entry.var)].emplace_back(edge_idx, unary_set_entry);
                     } //
                 }
                     .visit(entry);
@@ -602,7 +610,7 @@ namespace
                 vector<vector<SmartEntry>> entry_tree;
                 entry_tree.emplace_back();
                 // Recursively build the tree starting from this node
-                build_tree(var, 0, entry_tree, node_visited, adjacent_edges);
+                build_tree(var, 0, entry_tree, node_visited, edge_visited, adjacent_edges);
                 forest.emplace_back(entry_tree);
             }
 
-- 
2.43.0


From e6f6d17154460a10b21df9ac8ffa2b9ff267f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 28/42] fix: refuse a SmartTable with entries over variables it
 is not over

---
 gcs/constraints/smart_table/smart_table.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gcs/constraints/smart_table/smart_table.cc b/gcs/constraints/smart_table/smart_table.cc
index fd3a04a..d36badc 100644
--- a/gcs/constraints/smart_table/smart_table.cc
+++ b/gcs/constraints/smart_table/smart_table.cc
@@ -97,6 +97,26 @@ SmartTable::SmartTable(vector<IntegerVariableID> v, SmartTuples t) : _vars(move(
                 if (deview_for_alias_check(be->var_1) == deview_for_alias_check(be->var_2))
                     throw InvalidProblemDefinitionException{
                         "SmartTable: BinaryEntry with aliased endpoints (both sides share the same underlying variable handle)"};
+
+    // The propagator only tracks the variables the table is over.
+    set<IntegerVariableID> table_vars;
+    for (const auto & var : _vars)
+        table_vars.insert(deview_for_alias_check(var));
+    auto check = [&](const IntegerVariableID & var) {
+        if (! table_vars.contains(deview_for_alias_check(var)) && ! std::holds_alternative<ConstantIntegerVariableID>(var))
+            throw InvalidProblemDefinitionException{"SmartTable: entry over a variable that is not one of the table's variables"};
+    };
+    for (const auto & tuple : _tuples)
+        for (const auto & entry : tuple)
+            overloaded{
+                [&](const BinaryEntry & e) {
+                    check(e.var_1);
+                    check(e.var_2);
+                },                                             //
+                [&](const UnarySetEntry & e) { check(e.var); },  //
+                [&](const UnaryValueEntry & e) { check(e.var); } //
+            }
+                .visit(entry);
 }
 
 namespace
-- 
2.43.0


From 7a7ccab9dcf77b3c3654c41c787904d79ccdb4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 29/42] fix: accept a Circuit over no nodes

---
 gcs/constraints/circuit/circuit.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcs/constraints/circuit/circuit.cc b/gcs/constraints/circuit/circuit.cc
index e4bb6e7..1ca066d 100644
--- a/gcs/constraints/circuit/circuit.cc
+++ b/gcs/constraints/circuit/circuit.cc
@@ -121,6 +121,10 @@ auto Circuit::with_short_reasons(optional<bool> enable) -> Circuit &
 
 auto Circuit::prepare(Propagators & propagators, State & initial_state, ProofModel * const model) -> bool
 {
+    // A circuit over no nodes is trivially satisfied
+    if (_succ.empty())
+        return false;
+
     // Can't have negative values
     for (const auto & s : _succ)
         propagators.define_bound(initial_state, model, s, Bound::Lower, 0_i);
-- 
2.43.0


From 43d4d53b56b6efae926a414a291f1cad04b2683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 30/42] fix: propagate the root before autotabulating, so
 incremental difference constraints see it

---
 gcs/presolvers/auto_table/auto_table.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gcs/presolvers/auto_table/auto_table.cc b/gcs/presolvers/auto_table/auto_table.cc
index d0d1041..9bdaf0a 100644
--- a/gcs/presolvers/auto_table/auto_table.cc
+++ b/gcs/presolvers/auto_table/auto_table.cc
@@ -115,6 +115,15 @@ auto AutoTable::run(Problem & problem, Propagators & propagators, State & initia
     _stats->ran = true;
     _stats->variables = _vars.size();
 
+    // Everything has to be propagated before the guess below, as it is in the
+    // main search: a propagator may keep what it concludes on its first call for
+    // the rest of the solve, and the subproblem is going to be undone.
+    if (! propagators.propagate({}, initial_state, logger)) {
+        _stats->tuples = 0;
+        _stats->search_nodes = 1;
+        return false;
+    }
+
     SimpleTuples tuples;
 
     // dom_then_deg is stateless, so its setup is a no-op; build the per-node
-- 
2.43.0


From af8844ce0c3a596732888ea62b54119f8265a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 31/42] fix: bridge flags under the labels their definitions
 were given when names are not verbose

---
 gcs/innards/proofs/flag_bridge.cc           |  9 ++++-----
 gcs/innards/proofs/names_and_ids_tracker.cc | 12 ++++++++++++
 gcs/innards/proofs/names_and_ids_tracker.hh | 12 ++++++++++++
 gcs/innards/proofs/proof_model.cc           |  3 +++
 4 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/gcs/innards/proofs/flag_bridge.cc b/gcs/innards/proofs/flag_bridge.cc
index d69fa0e..9ea558e 100644
--- a/gcs/innards/proofs/flag_bridge.cc
+++ b/gcs/innards/proofs/flag_bridge.cc
@@ -25,15 +25,14 @@ namespace
     // them: `[r]` is `flag -> ineq` and `[f]` is `ineq -> flag`. The names read
     // backwards, which is ProofModel's doing and not worth diverging from here.
     //
-    // Built from the flag's full PB rendering rather than from name_of, which
-    // for a flag made from a plain stem returns just that stem and would name
-    // the wrong row --- or none. ProofModel labels these halves the same way,
-    // and says so where it does it.
+    // What the labels are built from depends upon how ProofModel was asked for
+    // the flag --- a constraint-keyed name is used whether or not names are
+    // verbose, and a plain stem never is --- so ask what was used.
     [[nodiscard]] auto label_base(const NamesAndIDsTracker & tracker, const ProofFlag & flag) -> string
     {
         if (! flag.positive)
             throw ProofError{"flag bridge: bridging a negated flag, whose reification halves are labelled under the positive one"};
-        return tracker.pb_file_string_for(flag);
+        return tracker.reification_label_base(flag);
     }
 
     [[nodiscard]] auto implies_condition(const NamesAndIDsTracker & tracker, const ProofFlag & flag) -> ProofLineLabel
diff --git a/gcs/innards/proofs/names_and_ids_tracker.cc b/gcs/innards/proofs/names_and_ids_tracker.cc
index b881a92..6a32189 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.cc
+++ b/gcs/innards/proofs/names_and_ids_tracker.cc
@@ -363,6 +363,7 @@ struct NamesAndIDsTracker::Imp
     map<ProofLine, ProofLine> deviewed_line_by_v_form;
 
     unordered_map<ProofFlag, XLiteral, HashProofFlag> flags;
+    unordered_map<ProofFlag, string, HashProofFlag> reification_label_bases;
 
     map<SimpleOrProofOnlyIntegerVariableID, string> id_names;
     // The PB-file rendering of every allocated XLiteral, indexed 2 * id +
@@ -2187,6 +2188,17 @@ auto NamesAndIDsTracker::name_of(ProofFlag id) const -> const string &
     return _imp->flag_names.at(id);
 }
 
+auto NamesAndIDsTracker::track_reification_label_base(ProofFlag id, const string & base) -> void
+{
+    _imp->reification_label_bases.insert_or_assign(id, base);
+}
+
+auto NamesAndIDsTracker::reification_label_base(ProofFlag id) const -> const string &
+{
+    auto found = _imp->reification_label_bases.find(id);
+    return found == _imp->reification_label_bases.end() ? pb_file_string_for(id) : found->second;
+}
+
 auto NamesAndIDsTracker::s_expr_name_of(IntegerVariableID id) const -> string
 {
     return overloaded{
diff --git a/gcs/innards/proofs/names_and_ids_tracker.hh b/gcs/innards/proofs/names_and_ids_tracker.hh
index 8b2b30c..ec2a71e 100644
--- a/gcs/innards/proofs/names_and_ids_tracker.hh
+++ b/gcs/innards/proofs/names_and_ids_tracker.hh
@@ -820,6 +820,18 @@ namespace gcs::innards
          * Get the human-readable name for a variable.
          */
         [[nodiscard]] auto name_of(ProofFlag id) const -> const std::string &;
+
+        /**
+         * Say that the two halves of a fully reified flag's definition are
+         * labelled as this base followed by `[r]` and `[f]`.
+         */
+        auto track_reification_label_base(ProofFlag id, const std::string & base) -> void;
+
+        /**
+         * Get the base that track_reification_label_base() was given for a flag,
+         * or its PB file rendering if it was given none.
+         */
+        [[nodiscard]] auto reification_label_base(ProofFlag id) const -> const std::string &;
     };
 }
 
diff --git a/gcs/innards/proofs/proof_model.cc b/gcs/innards/proofs/proof_model.cc
index a30f3db..a32d85f 100644
--- a/gcs/innards/proofs/proof_model.cc
+++ b/gcs/innards/proofs/proof_model.cc
@@ -305,6 +305,7 @@ auto ProofModel::add_two_way_reified_constraint(const WPBSumLE & ineq, const Pro
     // not name_of, whose plain-flag form is the bare stem and would collide across
     // flags sharing it.
     auto base = names_and_ids_tracker().pb_file_string_for(flag);
+    names_and_ids_tracker().track_reification_label_base(flag, base);
     auto forward = add_labelled_constraint(base + "[r]", ineq, HalfReifyOnConjunctionOf{{flag}});
     names_and_ids_tracker().derive_deviewed_form_for(forward, ineq.lhs, /*le_half=*/true);
     auto reverse_ineq = negate_inequality(ineq);
@@ -328,6 +329,7 @@ auto ProofModel::create_proof_flag_fully_reifying(
     // half (flag -> ineq), [f] the reverse (~flag -> ~ineq). The single-argument
     // add_labelled_constraint emits the @label verbatim.
     auto base = names_and_ids_tracker().name_of(flag);
+    names_and_ids_tracker().track_reification_label_base(flag, base);
     add_labelled_constraint(base + "[r]", ineq, HalfReifyOnConjunctionOf{{flag}});
     add_labelled_constraint(base + "[f]", negate_inequality(ineq), HalfReifyOnConjunctionOf{{! flag}});
     return flag;
@@ -340,6 +342,7 @@ auto ProofModel::create_proof_flag_values_fully_reifying(
     // As the index-list variant: v[..][r] is the forward half (flag -> ineq),
     // [f] the reverse (~flag -> ~ineq).
     auto base = names_and_ids_tracker().name_of(flag);
+    names_and_ids_tracker().track_reification_label_base(flag, base);
     add_labelled_constraint(base + "[r]", ineq, HalfReifyOnConjunctionOf{{flag}});
     add_labelled_constraint(base + "[f]", negate_inequality(ineq), HalfReifyOnConjunctionOf{{! flag}});
     return flag;
-- 
2.43.0


From a370066ce05ef93ab5533b47d0a4ab827754b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:28 +0000
Subject: [PATCH 32/42] fix: do not cite a height's order literal definition
 when definitions are not being written

---
 gcs/constraints/innards/guaranteed_contribution.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/innards/guaranteed_contribution.cc b/gcs/constraints/innards/guaranteed_contribution.cc
index 7ebddf8..ac1b933 100644
--- a/gcs/constraints/innards/guaranteed_contribution.cc
+++ b/gcs/constraints/innards/guaranteed_contribution.cc
@@ -37,7 +37,8 @@ auto gcs::innards::guaranteed_contribution_row(ProofLogger & logger, const Reaso
                        : logger.emit_rup_proof_line(WPBSum{} + 1_i * at_least >= 1_i, level);
 
     optional<vector<ProofLine>> hints;
-    if (auto line = std::get_if<ProofLine>(&definition))
+    // No definition has been written if definitions are being asserted away.
+    if (auto line = std::get_if<ProofLine>(&definition); line && *line != ProofLine{})
         hints = vector<ProofLine>{contribution_ge_row, *line, *holds};
 
     WPBSum guaranteed;
-- 
2.43.0


From 91dcc43f5f7c6f6156cd9a8f17d23d41fe5bd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:42 +0000
Subject: [PATCH 33/42] fix: iterate over interval sets that reach the largest
 or smallest value

---
 gcs/interval_set.hh | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index 42e32df..8c96836 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -429,9 +429,14 @@ namespace gcs
         [[nodiscard]] auto each() const -> std::generator<Int_>
         {
             return [](const Intervals & intervals) -> std::generator<Int_> {
+                // Stop on reaching u rather than on going past it: u could be the
+                // largest representable value.
                 for (const auto & [l, u] : intervals)
-                    for (Int_ i = l; i <= u; ++i)
+                    for (Int_ i = l;; ++i) {
                         co_yield i;
+                        if (i == u)
+                            break;
+                    }
             }(intervals);
         }
 
@@ -453,14 +458,20 @@ namespace gcs
         {
             if constexpr (std::is_void_v<std::invoke_result_t<F_ &, Int_>>) {
                 for (const auto & [l, u] : intervals)
-                    for (Int_ i = l; i <= u; ++i)
+                    for (Int_ i = l;; ++i) {
                         f(i);
+                        if (i == u)
+                            break;
+                    }
             }
             else {
                 for (const auto & [l, u] : intervals)
-                    for (Int_ i = l; i <= u; ++i)
+                    for (Int_ i = l;; ++i) {
                         if (! f(i))
                             return;
+                        if (i == u)
+                            break;
+                    }
             }
         }
 
@@ -563,17 +574,20 @@ namespace gcs
                 auto j = other_intervals.begin();
                 for (auto i = self_intervals.begin(); i != self_intervals.end(); ++i) {
                     Int_ cur = i->first;
+                    bool covered = false;
                     while (j != other_intervals.end() && j->second < cur)
                         ++j;
                     while (j != other_intervals.end() && j->first <= i->second) {
                         if (j->first > cur)
                             co_yield std::pair{cur, j->first - Int_{1}};
-                        cur = j->second + Int_{1};
-                        if (cur > i->second)
+                        if (j->second >= i->second) {
+                            covered = true;
                             break;
+                        }
+                        cur = j->second + Int_{1};
                         ++j;
                     }
-                    if (cur <= i->second)
+                    if (! covered)
                         co_yield std::pair{cur, i->second};
                 }
             }(intervals, other.intervals);
@@ -591,8 +605,11 @@ namespace gcs
         {
             return [](const Intervals & intervals) -> std::generator<Int_> {
                 for (auto lu = intervals.rbegin(); lu != intervals.rend(); ++lu)
-                    for (Int_ i = lu->second; i >= lu->first; --i)
+                    for (Int_ i = lu->second;; --i) {
                         co_yield i;
+                        if (i == lu->first)
+                            break;
+                    }
             }(intervals);
         }
 
-- 
2.43.0


From d5101c202a9089955decabf73d93e25145965884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:32 +0000
Subject: [PATCH 34/42] fix: inserting an interval set's largest value again
 changes nothing

---
 gcs/interval_set.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcs/interval_set.hh b/gcs/interval_set.hh
index 8c96836..b587b6c 100644
--- a/gcs/interval_set.hh
+++ b/gcs/interval_set.hh
@@ -352,6 +352,8 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(value, value);
+            else if (value == intervals.back().second)
+                return;
             else if (intervals.back().second == value - Int_(1))
                 intervals.back().second++;
             else
@@ -372,7 +374,7 @@ namespace gcs
         {
             if (intervals.empty())
                 intervals.emplace_back(lower, upper);
-            else if (intervals.back().second == lower - Int_(1))
+            else if (lower == intervals.back().second || intervals.back().second == lower - Int_(1))
                 intervals.back().second = upper;
             else
                 intervals.emplace_back(lower, upper);
-- 
2.43.0


From 113a5fcf0cbb700ee83b31fa313a60825f592ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:40 +0000
Subject: [PATCH 35/42] fix: pay off a donor capacity's order literal where its
 encoding cannot exceed the capacity

---
 gcs/constraints/cumulative/donor_view.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gcs/constraints/cumulative/donor_view.cc b/gcs/constraints/cumulative/donor_view.cc
index 0cca843..f65e81b 100644
--- a/gcs/constraints/cumulative/donor_view.cc
+++ b/gcs/constraints/cumulative/donor_view.cc
@@ -286,8 +286,10 @@ auto gcs::innards::recover_constant_argument_row(ProofLogger & logger, const Cum
         // capacity`, which is the same number by a route that overflows: a
         // capacity encoded up to bit 62 makes the doubling the first thing that
         // does not fit, where the sum below reaches at most the largest value
-        // the encoding can express and so at most what a bit vector holds.
-        auto atom_coefficient = (highest_bit - 1_i - view.capacity) + highest_bit;
+        // the encoding can express and so at most what a bit vector holds. Never
+        // less than one, which is what the definition gives the atom even where
+        // the encoding cannot go past the capacity.
+        auto atom_coefficient = std::max((highest_bit - 1_i - view.capacity) + highest_bit, 1_i);
 
         // The definition, which is what brings the capacity's bits over to
         // cancel against the row's, and what leaves the atom behind.
@@ -309,8 +311,7 @@ auto gcs::innards::recover_constant_argument_row(ProofLogger & logger, const Cum
         if (! atom_is_false)
             atom_is_false = logger.emit_rup_proof_line(WPBSum{} + 1_i * capacity_at_most >= 1_i, ProofLevel::Temporary);
 
-        if (atom_coefficient > 0_i)
-            reduced.add(*atom_is_false, atom_coefficient);
+        reduced.add(*atom_is_false, atom_coefficient);
     }
 
     for (const auto & flag : weaken_out)
-- 
2.43.0


From f30bf82942314169d23d8e231e38bb38d5c27361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 36/42] fix: do not derive from a variable-capacity donor in a
 proof that omits definitions

---
 gcs/constraints/cumulative/donor_view.cc | 5 +++++
 gcs/innards/proofs/proof_logger.cc       | 2 +-
 gcs/innards/proofs/proof_logger.hh       | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/gcs/constraints/cumulative/donor_view.cc b/gcs/constraints/cumulative/donor_view.cc
index f65e81b..994052f 100644
--- a/gcs/constraints/cumulative/donor_view.cc
+++ b/gcs/constraints/cumulative/donor_view.cc
@@ -38,6 +38,11 @@ auto gcs::innards::cumulative_donor_view(const Cumulative & donor, const State &
     if (! is_constant_variable(donor.capacity()) && ! std::holds_alternative<SimpleIntegerVariableID>(donor.capacity()))
         return nullopt;
 
+    // Nor has a variable capacity's order literal a definition to cite, in a
+    // proof that omits the definitions.
+    if (! is_constant_variable(donor.capacity()) && logger && logger->get_assertion_level() > AssertionLevel::Definitions)
+        return nullopt;
+
     if (is_constant_variable(donor.capacity()))
         view.capacity = constant_value_of(donor.capacity());
     else {
diff --git a/gcs/innards/proofs/proof_logger.cc b/gcs/innards/proofs/proof_logger.cc
index 2e7c1f3..78ffc6e 100644
--- a/gcs/innards/proofs/proof_logger.cc
+++ b/gcs/innards/proofs/proof_logger.cc
@@ -1015,7 +1015,7 @@ auto ProofLogger::write_indent() -> void
     }
 }
 
-auto ProofLogger::get_assertion_level() -> AssertionLevel
+auto ProofLogger::get_assertion_level() const -> AssertionLevel
 {
     return _imp->assertion_level;
 }
diff --git a/gcs/innards/proofs/proof_logger.hh b/gcs/innards/proofs/proof_logger.hh
index 3ee2ef2..d4d9135 100644
--- a/gcs/innards/proofs/proof_logger.hh
+++ b/gcs/innards/proofs/proof_logger.hh
@@ -390,7 +390,7 @@ namespace gcs::innards
          * Get the level enum controlling how much of the proof will be asserted
          * instead of fully justified.
          */
-        auto get_assertion_level() -> AssertionLevel;
+        [[nodiscard]] auto get_assertion_level() const -> AssertionLevel;
     };
 }
 
-- 
2.43.0


From 8aede6a02274b030735fa62e8dd8131f56e47703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:24 +0000
Subject: [PATCH 37/42] fix: justify a cumulative's inferences from the heights
 they used

---
 gcs/constraints/cumulative/cumulative.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gcs/constraints/cumulative/cumulative.cc b/gcs/constraints/cumulative/cumulative.cc
index 91f4e51..c977d12 100644
--- a/gcs/constraints/cumulative/cumulative.cc
+++ b/gcs/constraints/cumulative/cumulative.cc
@@ -656,7 +656,13 @@ auto gcs::innards::propagate_cumulative(const CumulativeInputs & inputs, const S
     // the load is its smallest still-allowed height, lb(h_i). For a
     // constant height lb(h_i) is just its value. Variable heights' bounds
     // are part of every reason, and the proof uses the cc flags.
-    auto hlb = [&](size_t i) { return state.lower_bound(heights_var[i]); };
+    // Read once, since a height could also be something this propagator
+    // infers on, and each inference is justified from the height it used.
+    vector<Integer> heights_lower;
+    heights_lower.reserve(heights_var.size());
+    for (const auto & h : heights_var)
+        heights_lower.push_back(state.lower_bound(h));
+    auto hlb = [&](size_t i) { return heights_lower[i]; };
     auto h_is_var = [&](size_t i) { return ! is_constant_variable(heights_var[i]); };
 
     // A length may be a variable: a task's *mandatory* part and its
-- 
2.43.0


From 288a8fed1ae171ec0a26229f30445a1302d51e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:28 +0000
Subject: [PATCH 38/42] fix: justify a reified inequality's condition from the
 bounds that decided it

---
 gcs/constraints/linear/hints.hh             | 10 ++++---
 gcs/constraints/linear/linear_inequality.cc | 31 +++++++++++++++------
 2 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/gcs/constraints/linear/hints.hh b/gcs/constraints/linear/hints.hh
index 262cfa3..5a247ed 100644
--- a/gcs/constraints/linear/hints.hh
+++ b/gcs/constraints/linear/hints.hh
@@ -5,11 +5,12 @@
 #include <gcs/innards/proofs/proof_line.hh>
 #include <gcs/innards/proofs/proof_logger-fwd.hh>
 #include <gcs/innards/reason.hh>
-#include <gcs/innards/state-fwd.hh>
+#include <gcs/integer.hh>
 
 #include <optional>
 #include <string_view>
 #include <utility>
+#include <vector>
 
 namespace gcs::innards::hints
 {
@@ -61,8 +62,9 @@ namespace gcs::innards::hints
      *
      * Extends the base with the `cond` subhint and the emit context justify_cond
      * reads: the sanitised coefficient vector (deduced by tidy_up_linear, hence the
-     * template) and the two definition lines, with the State by pointer (the verdict
-     * is consumed synchronously while the constraint is live). The data is held for
+     * template), the bounds its variables had at the verdict (the condition could be
+     * over one of them, so they may have changed since; only filled in when logging
+     * a proof), and the two definition lines. The data is held for
      * emit_justification only; with no own hint_sexpr the hint takes the default
      * identity-plus-subhint wire form.
      *
@@ -72,7 +74,7 @@ namespace gcs::innards::hints
     struct LinearInequalityCond : LinearInequality
     {
         static constexpr std::string_view subhint_name = "cond";
-        const State * state;
+        std::vector<std::pair<Integer, Integer>> bounds;
         CoeffVars_ coeff_vars;
         std::pair<std::optional<ProofLine>, std::optional<ProofLine>> proof_lines;
     };
diff --git a/gcs/constraints/linear/linear_inequality.cc b/gcs/constraints/linear/linear_inequality.cc
index 34a5c53..23846ef 100644
--- a/gcs/constraints/linear/linear_inequality.cc
+++ b/gcs/constraints/linear/linear_inequality.cc
@@ -13,6 +13,8 @@
 #include <gcs/innards/s_expr.hh>
 #include <gcs/innards/state.hh>
 
+#include <util/enumerate.hh>
+
 #include <version>
 
 #if defined(__cpp_lib_print) && defined(__cpp_lib_format)
@@ -60,7 +62,15 @@ auto ReifiedLinearInequality::clone() const -> unique_ptr<Constraint>
 
 namespace
 {
-    auto justify_cond(const State & state, const auto & coeff_vars, ProofLogger & logger,
+    auto bounds_of(const auto & coeff_vars, const State & state) -> vector<pair<Integer, Integer>>
+    {
+        vector<pair<Integer, Integer>> result;
+        for (const auto & cv : coeff_vars.terms)
+            result.push_back(state.bounds(get_var(cv)));
+        return result;
+    }
+
+    auto justify_cond(const vector<pair<Integer, Integer>> & bounds, const auto & coeff_vars, ProofLogger & logger,
         const pair<optional<ProofLine>, optional<ProofLine>> & proof_lines) -> void
     {
         // Deview mode: see justify_linear_bounds for the rationale.
@@ -68,11 +78,11 @@ namespace
         pol.enable_deview_mode(logger.names_and_ids_tracker());
         pol.add(proof_lines.first.value());
 
-        for (const auto & cv : coeff_vars.terms) {
+        for (const auto & [idx, cv] : enumerate(coeff_vars.terms)) {
             // the following line of logic is definitely correct until you inevitably
             // discover otherwise
             bool upper = (get_coeff(cv) < 0_i);
-            auto lit = upper ? get_var(cv) <= state.upper_bound(get_var(cv)) : get_var(cv) >= state.lower_bound(get_var(cv));
+            auto lit = upper ? get_var(cv) <= bounds[idx].second : get_var(cv) >= bounds[idx].first;
             pol.add_for_literal(logger.names_and_ids_tracker(), lit, abs(get_coeff(cv)));
         }
 
@@ -85,7 +95,7 @@ namespace gcs::innards::hints
     template <typename CoeffVars_>
     auto emit_justification(ProofLogger & logger, const LinearInequalityCond<CoeffVars_> & w, const ReasonLiterals &) -> void
     {
-        justify_cond(*w.state, w.coeff_vars, logger, w.proof_lines);
+        justify_cond(w.bounds, w.coeff_vars, logger, w.proof_lines);
     }
 }
 
@@ -289,7 +299,7 @@ auto ReifiedLinearInequality::install_propagators(Propagators & propagators) ->
             // rebuilt per verdict (see dev_docs/propagator-performance.md).
             auto infer_cond_when_undecided = [sanitised_cv, sanitised_neg_cv, value = _value, modifier = modifier, proof_lines, proof_lines_swapped,
                                                  reason = generic_reason(vars),
-                                                 owner = constraint_id()](const State & state, auto &, ProofLogger * const,
+                                                 owner = constraint_id()](const State & state, auto &, ProofLogger * const logger,
                                                  const IntegerVariableCondition &) -> ReificationVerdictFor<LinearCondJustification> {
                 Integer min_possible = 0_i, max_possible = 0_i;
                 for (const auto & cv : sanitised_cv.terms) {
@@ -312,14 +322,19 @@ auto ReifiedLinearInequality::install_propagators(Propagators & propagators) ->
                     // ever emitted for a form that has that row.
                     return reification_verdict::MustNotHold<LinearCondJustification>{
                         .justification =
-                            JustifyExplicitly{hints::LinearInequalityCond<CV>{{owner}, &state, sanitised_cv, proof_lines}, ThenRUP::Yes}, //
-                        .reason = reason                                                                                                  //
+                            JustifyExplicitly{hints::LinearInequalityCond<CV>{{owner},
+                                                               logger ? bounds_of(sanitised_cv, state) : vector<pair<Integer, Integer>>{},
+                                                               sanitised_cv, proof_lines},
+                            ThenRUP::Yes}, //
+                        .reason = reason   //
                     };
                 }
                 else if (max_possible <= value + modifier) {
                     // must definitely hold
                     return reification_verdict::MustHold<LinearCondJustification>{
-                        .justification = JustifyExplicitly{hints::LinearInequalityCond<NegCV>{{owner}, &state, sanitised_neg_cv, proof_lines_swapped},
+                        .justification = JustifyExplicitly{hints::LinearInequalityCond<NegCV>{{owner},
+                                                               logger ? bounds_of(sanitised_neg_cv, state) : vector<pair<Integer, Integer>>{},
+                                                               sanitised_neg_cv, proof_lines_swapped},
                             ThenRUP::Yes}, //
                         .reason = reason   //
                     };
-- 
2.43.0


From ac5a543c3d9385949e4e93fd4fc9029f946ed2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:43 +0000
Subject: [PATCH 39/42] fix: justify a reified lex's condition from the bounds
 that decided it

---
 gcs/constraints/lex/hints.hh | 16 +++++++---------
 gcs/constraints/lex/lex.cc   | 28 ++++++++++------------------
 2 files changed, 17 insertions(+), 27 deletions(-)

diff --git a/gcs/constraints/lex/hints.hh b/gcs/constraints/lex/hints.hh
index 161d10c..cd18bb8 100644
--- a/gcs/constraints/lex/hints.hh
+++ b/gcs/constraints/lex/hints.hh
@@ -5,7 +5,6 @@
 #include <gcs/innards/proofs/proof_logger-fwd.hh>
 #include <gcs/innards/proofs/proof_only_variables.hh>
 #include <gcs/innards/reason.hh>
-#include <gcs/innards/state-fwd.hh>
 #include <gcs/variable_id.hh>
 
 #include <cstddef>
@@ -37,21 +36,20 @@ namespace gcs::innards::hints
      * verdict.
      *
      * Extends the base with the `unsat_scaffold` subhint and the emit context the
-     * scaffold builder reads: the implicated reason, the two variable lists, the
-     * compared prefix length, and the prefix-equal / decision-point aux-flag tables
-     * (by shared_ptr), with the State by pointer (the verdict is consumed
-     * synchronously while the constraint is live). Held for emit_justification only;
-     * with no own hint_sexpr the hint takes the default identity-plus-subhint wire
-     * form.
+     * scaffold builder reads: the position whose bounds decided the verdict, if one
+     * did (worked out when the verdict was reached, since inferring a condition over
+     * one of the variables changes the bounds), the implicated reason, the compared
+     * prefix length, and the prefix-equal / decision-point aux-flag tables (by
+     * shared_ptr). Held for emit_justification only; with no own hint_sexpr the hint
+     * takes the default identity-plus-subhint wire form.
      *
      * \ingroup Innards
      */
     struct LexUnsatScaffold : Lex
     {
         static constexpr std::string_view subhint_name = "unsat_scaffold";
-        const State * state;
+        std::optional<std::size_t> decided_at;
         ReasonLiterals reason;
-        std::vector<IntegerVariableID> first_vars, second_vars;
         std::size_t n;
         std::shared_ptr<std::vector<std::optional<ProofFlag>>> prefix_equal_flags;
         std::shared_ptr<std::vector<ProofFlag>> decision_at_flags;
diff --git a/gcs/constraints/lex/lex.cc b/gcs/constraints/lex/lex.cc
index 9a01f11..8c44ad1 100644
--- a/gcs/constraints/lex/lex.cc
+++ b/gcs/constraints/lex/lex.cc
@@ -228,25 +228,15 @@ namespace
     // the negation of the inferred cond, the half-reified at-least-one
     // constraint becomes active and conflicts with the bounds-forced aux
     // flag values.
-    auto emit_lex_unsat_scaffold(const State & state, ProofLogger * const logger, const ReasonLiterals & r, const vector<IntegerVariableID> & vars_1,
-        const vector<IntegerVariableID> & vars_2, size_t n, const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_flags,
-        const shared_ptr<vector<ProofFlag>> & decision_at_flags) -> void
+    auto emit_lex_unsat_scaffold(ProofLogger * const logger, const ReasonLiterals & r, const optional<size_t> & decided_at, size_t n,
+        const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_flags, const shared_ptr<vector<ProofFlag>> & decision_at_flags) -> void
     {
         // First not-equal position (where bounds prevent vars_1[k0] =
         // vars_2[k0]). ~prefix_equal[k0+1] is RUP-derivable directly from
         // bounds and the prefix_equal half-reif at k0.
-        for (size_t k = 0; k < n; ++k) {
-            auto b1 = state.bounds(vars_1[k]);
-            auto b2 = state.bounds(vars_2[k]);
-            bool fixed_equal = (b1.first == b1.second && b2.first == b2.second && b1.first == b2.first);
-            if (fixed_equal)
-                continue;
-            // Bounds force inequality iff there's no overlap.
-            if (b1.first > b2.second || b1.second < b2.first) {
-                logger->emit_rup_proof_line_under_reason(r, WPBSum{} + 1_i * ! *prefix_equal_flags->at(k + 1) >= 1_i, ProofLevel::Temporary);
-            }
-            break;
-        }
+        if (decided_at)
+            logger->emit_rup_proof_line_under_reason(
+                r, WPBSum{} + 1_i * ! *prefix_equal_flags->at(*decided_at + 1) >= 1_i, ProofLevel::Temporary);
 
         // ~decision_at[k] for every position. Each is RUP-derivable directly
         // from bounds (decision_at[k] -> prefix_equal[k] AND vars_1[k] >
@@ -262,7 +252,7 @@ namespace gcs::innards::hints
     auto emit_justification(ProofLogger & logger, const LexUnsatScaffold & w, const ReasonLiterals &) -> void
     {
         if (w.prefix_equal_flags && w.decision_at_flags)
-            emit_lex_unsat_scaffold(*w.state, &logger, w.reason, w.first_vars, w.second_vars, w.n, w.prefix_equal_flags, w.decision_at_flags);
+            emit_lex_unsat_scaffold(&logger, w.reason, w.decided_at, w.n, w.prefix_equal_flags, w.decision_at_flags);
     }
 }
 
@@ -329,6 +319,8 @@ namespace
         if (! definitely_holds && ! definitely_does_not_hold)
             return reification_verdict::StillUndecided{};
 
+        auto decided_at = k < n ? optional<size_t>{k} : nullopt;
+
         // When the dispatcher infers cond, the framework's RUP step will
         // assume the *negation* of the inferred literal. The scaffolding
         // therefore lives under that negation: the opposite-direction
@@ -339,7 +331,7 @@ namespace
             auto reason_under_cond_false = reason;
             reason_under_cond_false.push_back(! cond);
             return reification_verdict::MustHold<JustifyExplicitly<hints::LexUnsatScaffold>>{
-                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, &state, std::move(reason_under_cond_false), vars_2, vars_1, n,
+                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, decided_at, std::move(reason_under_cond_false), n,
                                                        prefix_equal_lt_flags, decision_at_lt_flags},
                     ThenRUP::Yes},          //
                 .reason = std::move(reason) //
@@ -349,7 +341,7 @@ namespace
             auto reason_under_cond_true = reason;
             reason_under_cond_true.push_back(cond);
             return reification_verdict::MustNotHold<JustifyExplicitly<hints::LexUnsatScaffold>>{
-                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, &state, std::move(reason_under_cond_true), vars_1, vars_2, n,
+                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, decided_at, std::move(reason_under_cond_true), n,
                                                        prefix_equal_gt_flags, decision_at_gt_flags},
                     ThenRUP::Yes},          //
                 .reason = std::move(reason) //
-- 
2.43.0


From 839edf06caf2ddadf7410a802573cb90f61bad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 40/42] fix: justify a reified equality's condition from the
 values that decided it

---
 gcs/constraints/equals/equals.cc |  4 ++--
 gcs/constraints/equals/hints.hh  | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gcs/constraints/equals/equals.cc b/gcs/constraints/equals/equals.cc
index d161cbe..fa8cce6 100644
--- a/gcs/constraints/equals/equals.cc
+++ b/gcs/constraints/equals/equals.cc
@@ -48,7 +48,7 @@ namespace gcs::innards::hints
     auto emit_justification(ProofLogger & logger, const EqualsNoOverlap & w, const ReasonLiterals &) -> void
     {
         for (Integer val = w.v1_bounds.first; val <= w.v1_bounds.second; ++val)
-            if (w.state->in_domain(w.v1, val))
+            if (w.v1_values.contains(val))
                 logger.emit_rup_proof_line(WPBSum{} + 1_i * (w.v1 != val) + 1_i * (w.v2 == val) + 1_i * ! w.cond >= 1_i, ProofLevel::Temporary);
             else
                 logger.emit_rup_proof_line(WPBSum{} + 1_i * (w.v2 != val) + 1_i * (w.v1 == val) + 1_i * ! w.cond >= 1_i, ProofLevel::Temporary);
@@ -185,7 +185,7 @@ namespace
             else
                 reason.emplace_back(v1 != val);
 
-        return pair{hints::EqualsNoOverlap{{owner}, &state, v1, v2, v1_bounds, cond}, ExplicitReason{reason}};
+        return pair{hints::EqualsNoOverlap{{owner}, v1, v2, state.copy_of_values(v1), v1_bounds, cond}, ExplicitReason{reason}};
     }
 
     // equals's reified verdicts are either a plain RUP (the singleton / forced
diff --git a/gcs/constraints/equals/hints.hh b/gcs/constraints/equals/hints.hh
index d8e4da9..0d7d009 100644
--- a/gcs/constraints/equals/hints.hh
+++ b/gcs/constraints/equals/hints.hh
@@ -5,8 +5,8 @@
 #include <gcs/innards/literal.hh>
 #include <gcs/innards/proofs/proof_logger-fwd.hh>
 #include <gcs/innards/reason.hh>
-#include <gcs/innards/state-fwd.hh>
 #include <gcs/integer.hh>
+#include <gcs/interval_set.hh>
 #include <gcs/variable_id.hh>
 
 #include <string_view>
@@ -35,18 +35,18 @@ namespace gcs::innards::hints
      *
      * Extends the base with the `no_overlap` subhint and the emit context the
      * internal proof writer reads to emit the per-value RUP lemmas: the operands,
-     * the bounds walked over, and the reification condition. The State pointer is
-     * valid because the verdict is consumed synchronously while the constraint is
-     * live. The data is held for emit_justification only; with no own hint_sexpr
-     * the hint takes the default identity-plus-subhint wire form.
+     * the values the first had and the bounds walked over (as they were at the
+     * verdict, since inferring a condition over the same variable changes them), and
+     * the reification condition. The data is held for emit_justification only; with
+     * no own hint_sexpr the hint takes the default identity-plus-subhint wire form.
      *
      * \ingroup Innards
      */
     struct EqualsNoOverlap : Equals
     {
         static constexpr std::string_view subhint_name = "no_overlap";
-        const State * state;
         IntegerVariableID v1, v2;
+        IntervalSet<Integer> v1_values;
         std::pair<Integer, Integer> v1_bounds;
         Literal cond;
     };
-- 
2.43.0


From 941534177db291559e709466a42ccb8381b4c589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 41/42] fix: justify falsifying a lex's not-if condition under
 that condition

---
 gcs/constraints/lex/lex.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gcs/constraints/lex/lex.cc b/gcs/constraints/lex/lex.cc
index 8c44ad1..5b21e66 100644
--- a/gcs/constraints/lex/lex.cc
+++ b/gcs/constraints/lex/lex.cc
@@ -267,8 +267,8 @@ namespace
     auto run_lex_undecided_detection(const State & state, ProofLogger * const, const vector<IntegerVariableID> & vars_1,
         const vector<IntegerVariableID> & vars_2, bool or_equal, const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_gt_flags,
         const shared_ptr<vector<ProofFlag>> & decision_at_gt_flags, const shared_ptr<vector<optional<ProofFlag>>> & prefix_equal_lt_flags,
-        const shared_ptr<vector<ProofFlag>> & decision_at_lt_flags, const IntegerVariableCondition & cond, const ConstraintID & owner)
-        -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>>
+        const shared_ptr<vector<ProofFlag>> & decision_at_lt_flags, const IntegerVariableCondition & cond, bool cond_implies_not,
+        const ConstraintID & owner) -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>>
     {
         auto n1 = vars_1.size();
         auto n2 = vars_2.size();
@@ -328,10 +328,12 @@ namespace
         // every aux flag to FALSE, violating it. We pre-emit those
         // ~aux_flag lines so VeriPB's PB unit propagation can chain.
         if (definitely_holds) {
-            auto reason_under_cond_false = reason;
-            reason_under_cond_false.push_back(! cond);
+            // The less-than direction is encoded under ! cond for an Iff, but
+            // under cond for a NotIf (which has cond falsified here).
+            auto reason_under_lt = reason;
+            reason_under_lt.push_back(cond_implies_not ? cond : ! cond);
             return reification_verdict::MustHold<JustifyExplicitly<hints::LexUnsatScaffold>>{
-                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, decided_at, std::move(reason_under_cond_false), n,
+                .justification = JustifyExplicitly{hints::LexUnsatScaffold{{owner}, decided_at, std::move(reason_under_lt), n,
                                                        prefix_equal_lt_flags, decision_at_lt_flags},
                     ThenRUP::Yes},          //
                 .reason = std::move(reason) //
@@ -561,10 +563,10 @@ auto LexCompareGreaterThanOrMaybeEqual::install_propagators(Propagators & propag
     auto infer_cond_when_undecided = [vars_1 = move(_vars_1), vars_2 = move(_vars_2), or_equal, prefix_equal_gt_flags = _prefix_equal_gt_flags,
                                          decision_at_gt_flags = _decision_at_gt_flags, prefix_equal_lt_flags = _prefix_equal_lt_flags,
                                          decision_at_lt_flags = _decision_at_lt_flags,
-                                         owner = constraint_id()](const State & state, auto &, ProofLogger * const logger,
-                                         const IntegerVariableCondition & cond) -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>> {
+                                         cond_implies_not = std::holds_alternative<reif::NotIf>(_reif_cond), owner = constraint_id()](
+                                         const State & state, auto &, ProofLogger * const logger, const IntegerVariableCondition & cond) -> ReificationVerdictFor<JustifyExplicitly<hints::LexUnsatScaffold>> {
         return run_lex_undecided_detection(state, logger, vars_1, vars_2, or_equal, prefix_equal_gt_flags, decision_at_gt_flags,
-            prefix_equal_lt_flags, decision_at_lt_flags, cond, owner);
+            prefix_equal_lt_flags, decision_at_lt_flags, cond, cond_implies_not, owner);
     };
 
     install_reified_dispatcher(propagators, constraint_id(), _evaluated_cond, _reif_cond, triggers, std::move(enforce_constraint_must_hold),
-- 
2.43.0


From 3a266adbd082e6ad51fa18fb56d2f0d93035f937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:28 +0000
Subject: [PATCH 42/42] fix: GCS_ASSERTION_LEVEL names are case-insensitive, as
 documented

---
 gcs/proof.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gcs/proof.cc b/gcs/proof.cc
index 62422e8..d934174 100644
--- a/gcs/proof.cc
+++ b/gcs/proof.cc
@@ -3,6 +3,8 @@
 #include <gcs/innards/proofs/proof_model.hh>
 #include <gcs/proof.hh>
 
+#include <algorithm>
+#include <cctype>
 #include <cstdlib>
 #include <optional>
 #include <string>
@@ -38,18 +40,19 @@ namespace
             return nullopt;
 
         string value{env};
-        if (value == "Off" || value == "off" || value == "0")
+        std::transform(value.begin(), value.end(), value.begin(), [](unsigned char c) { return static_cast<char>(std::tolower(c)); });
+        if (value == "off" || value == "0")
             return AssertionLevel::Off;
-        else if (value == "Definitions" || value == "definitions" || value == "1")
+        else if (value == "definitions" || value == "1")
             return AssertionLevel::Definitions;
-        else if (value == "Links" || value == "links" || value == "2")
+        else if (value == "links" || value == "2")
             return AssertionLevel::Links;
-        else if (value == "Inferences" || value == "inferences" || value == "3")
+        else if (value == "inferences" || value == "3")
             return AssertionLevel::Inferences;
-        else if (value == "Backtracking" || value == "backtracking" || value == "4")
+        else if (value == "backtracking" || value == "4")
             return AssertionLevel::Backtracking;
 
-        print(stderr, "Ignoring unrecognised GCS_ASSERTION_LEVEL value '{}'\n", value);
+        print(stderr, "Ignoring unrecognised GCS_ASSERTION_LEVEL value '{}'\n", env);
         return nullopt;
     }
 
-- 
2.43.0

