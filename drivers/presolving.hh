#ifndef VERIF_DRIVERS_PRESOLVING_HH
#define VERIF_DRIVERS_PRESOLVING_HH

// Presolvers in random combinations and configurations, and models that give
// them something to do.

#include "model.hh"

#include <gcs/presolvers/auto_table.hh>
#include <gcs/presolvers/cumulative_strengthening.hh>
#include <gcs/presolvers/difference_logic.hh>
#include <gcs/presolvers/inferred_cumulative.hh>
#include <gcs/presolvers/inferred_disjunctive.hh>

namespace verif
{
    using gcs::operator""_i;
    struct Presolving
    {
        vector<J> json;
        vector<std::function<void(gcs::Problem &, const Ids &)>> add;
    };

    inline auto some_rules(Rng & rng) -> std::optional<gcs::CumulativeRules>
    {
        if (rng.chance(1, 3))
            return std::nullopt;
        auto b = rng.in(0, 1023);
        return gcs::CumulativeRules{.time_table = (b & 1) != 0, .overload = (b & 2) != 0, .profile_overload = (b & 4) != 0, .elastic_overload = (b & 8) != 0, .knapsack_overload = (b & 16) != 0, .edge_finding = (b & 32) != 0, .time_table_edge_finding = (b & 64) != 0, .energetic_edge_finding = (b & 128) != 0, .not_first_not_last = (b & 256) != 0, .not_first_not_last_published = (b & 512) != 0};
    }

    inline auto random_term(Rng & rng, const Model & m) -> Term
    {
        Term t{static_cast<int>(rng.in(1, static_cast<long long>(m.doms.size()))), 1, 0};
        if (rng.chance(1, 6)) {
            t.c = rng.chance(1, 2) ? 1 : -1;
            t.o = rng.in(-3, 3);
        }
        return t;
    }

    // how: a letter for each kind to choose from
    inline auto random_presolvers(Rng & rng, const Model & m, int makespan, const string & how) -> Presolving
    {
        Presolving r;
        for (auto n = rng.chance(2, 3) ? 1 : rng.in(2, 4); n > 0; --n) {
            auto kind = how[static_cast<std::size_t>(rng.in(0, static_cast<long long>(how.size()) - 1))];
            auto rules = some_rules(rng);
            auto budget = [&rng] { return rng.chance(2, 3) ? -1 : rng.pick(vector<long long>{0, 1, 2, 5, 20}); };
            if (kind == 'a') {
                vector<Term> ts;
                for (auto q = rng.in(1, 3); q > 0; --q)
                    ts.push_back(random_term(rng, m));
                r.json.push_back(Obj{}.add("p", "auto_table").add("vars", terms_json(ts)));
                r.add.push_back([=](gcs::Problem & p, const Ids & ids) { p.add_presolver(gcs::AutoTable{ids_of(ts, ids)}); });
            }
            else if (kind == 'd') {
                auto b = rng.in(0, 15);
                r.json.push_back(Obj{}.add("p", "difference_logic").add("b", b));
                r.add.push_back([=](gcs::Problem & p, const Ids &) {
                    gcs::DifferenceLogic d;
                    d.disabling_lifted_donors((b & 1) != 0).simplifying_at_root((b & 2) != 0).incrementally((b & 4) != 0).auditing_incremental_propagation((b & 8) != 0);
                    p.add_presolver(d);
                });
            }
            else if (kind == 's') {
                auto dp = budget(), raise = budget(), cap = budget();
                r.json.push_back(Obj{}.add("p", "cumulative_strengthening"));
                r.add.push_back([=](gcs::Problem & p, const Ids &) {
                    gcs::CumulativeStrengthening s;
                    if (dp >= 0)
                        s.with_dynamic_programming_budget(dp);
                    if (raise >= 0)
                        s.with_raise_budget(raise);
                    if (cap >= 0)
                        s.with_subset_sum_capacity_limit(cap);
                    if (rules)
                        s.with_rules(*rules);
                    p.add_presolver(s);
                });
            }
            else if (kind == 'j') {
                auto c = budget(), q = budget();
                auto clique = rng.chance(1, 2) ? rng.in(2, 4) : -1;
                bool named = makespan != 0 && rng.chance(2, 3);
                int on = named ? makespan : rng.chance(1, 6) ? static_cast<int>(rng.in(1, static_cast<long long>(m.doms.size()))) : 0;
                r.json.push_back(Obj{}.add("p", "inferred_disjunctive").add("makespan", on));
                r.add.push_back([=](gcs::Problem & p, const Ids & ids) {
                    gcs::InferredDisjunctive s;
                    if (c >= 0)
                        s.with_budgets(static_cast<std::size_t>(c * 10), static_cast<std::size_t>(q >= 0 ? q : 100));
                    if (clique >= 0)
                        s.with_minimum_clique_size(static_cast<std::size_t>(clique));
                    if (rules)
                        s.with_rules(*rules);
                    if (on)
                        s.with_makespan(ids.at(on - 1));
                    p.add_presolver(s);
                });
            }
            else {
                auto c = budget(), q = budget(), cap = budget(), calls = budget(), states = budget();
                bool named = makespan != 0 && rng.chance(2, 3);
                int on = named ? makespan : rng.chance(1, 6) ? static_cast<int>(rng.in(1, static_cast<long long>(m.doms.size()))) : 0;
                r.json.push_back(Obj{}.add("p", "inferred_cumulative").add("makespan", on));
                r.add.push_back([=](gcs::Problem & p, const Ids & ids) {
                    gcs::InferredCumulative s;
                    if (c >= 0)
                        s.with_budgets(static_cast<std::size_t>(c * 10), static_cast<std::size_t>(q >= 0 ? q : 100));
                    if (cap > 0)
                        s.with_maximum_capacity(static_cast<std::size_t>(cap));
                    if (calls >= 0)
                        s.with_lifting_call_budget(static_cast<std::size_t>(calls));
                    if (states >= 0)
                        s.with_programme_state_budget(static_cast<std::size_t>(states * 5));
                    if (rules)
                        s.with_rules(*rules);
                    if (on)
                        s.with_makespan(ids.at(on - 1));
                    p.add_presolver(s);
                });
            }
        }
        return r;
    }

    // sum of +x -y <= d, in one of the ways to say it
    inline auto difference_con(Maker & k, Term x, Term y, long long d) -> Con
    {
        auto mode = k.rng.chance(2, 3) ? string{"must"} : k.rng.chance(2, 3) ? string{"if"} : k.rng.pick(vector<string>{"iff", "mustnot", "notif"});
        auto l = k.cond();
        bool compare = k.rng.chance(1, 2);
        if (compare) {
            // x < y + (d + 1) or x <= y + d
            auto c = k.con("compare");
            bool oreq = k.rng.chance(1, 2);
            auto b = y;
            b.o += oreq ? d : d + 1;
            if (b.v == 0)
                b.c = 1;
            c.json.add("x", x.json()).add("y", b.json()).add("r", k.reif_json(mode, l)).add("oreq", oreq).add("gt", false).add("cls", false);
            c.post = [=](const Sink & s, const Ids & v) {
                s.post(gcs::ReifiedCompareLessThanOrMaybeEqual{x.id(v), b.id(v), reif_of(mode, l, v), oreq, oreq && d % 2 != 0});
            };
            return c;
        }
        auto c = k.con("linle");
        bool ge = k.rng.chance(1, 3) && (mode == "must" || mode == "if");
        vector<long long> co{ge ? -1 : 1, ge ? 1 : -1};
        if (k.rng.chance(1, 10))
            co[static_cast<std::size_t>(k.rng.in(0, 1))] *= k.rng.in(0, 2);
        vector<Term> xs{x, y};
        if (k.rng.chance(1, 10)) {
            co.push_back(1);
            xs.push_back(k.term(-1, 1));
        }
        long long value = ge ? -d : d;
        vector<J> js;
        for (std::size_t i = 0; i < co.size(); ++i)
            js.push_back(arr({J{co[i]}, xs[i].json()}));
        c.json.add("sum", js).add("value", value).add("r", k.reif_json(mode, l)).add("ge", ge);
        c.post = [=](const Sink & s, const Ids & v) {
            gcs::WeightedSum sum;
            for (std::size_t i = 0; i < co.size(); ++i)
                sum += Integer{co[i]} * xs[i].id(v);
            if (ge && mode == "must")
                s.post(gcs::LinearGreaterThanEqual{sum, Integer{value}});
            else if (ge)
                s.post(gcs::LinearGreaterThanEqualIf{sum, Integer{value}, l.cond(v)});
            else if (mode == "must" && value % 2)
                s.post(gcs::LinearLessThanEqual{sum, Integer{value}});
            else
                s.post(gcs::ReifiedLinearInequality{sum, Integer{value}, reif_of(mode, l, v)});
        };
        return c;
    }

    // tasks on one to three resources, sometimes with precedences and a makespan
    inline auto project_model(Rng & rng, long long limit, int & makespan) -> Model
    {
        Maker k(rng, limit);
        k.constants = 1000;
        k.constant_conditions = false;
        auto n = static_cast<int>(rng.in(2, 5));
        auto horizon = rng.in(3, 7);
        vector<Term> starts, lengths, pres;
        vector<Con> cons;
        bool optional = rng.chance(1, 5);
        for (int i = 0; i < n; ++i) {
            if (rng.chance(1, 16))
                starts.push_back(k.term(0, horizon - 1));
            else
                starts.push_back({k.new_var(k.domain(0, horizon - 1)), 1, 0});
            if (rng.chance(1, 16))
                starts.back().o += rng.in(-1, 1);
            lengths.push_back(rng.chance(7, 8) ? Term{0, 1, rng.in(rng.chance(1, 8) ? 0 : 1, 3)} : k.term(1, 3, true));
            pres.push_back(optional && rng.chance(1, 2) ? Term{k.new_var({0, 1}), 1, 0} : Term{0, 1, 1});
        }
        bool same = rng.chance(1, 3);
        for (auto rs = rng.in(1, 3); rs > 0; --rs) {
            vector<Term> s, l, h, p;
            auto cap = rng.in(1, 6);
            auto step = rng.chance(1, 3) && cap > 2 ? 2 : 1;
            for (int i = 0; i < n; ++i)
                for (auto times = same || rng.chance(3, 4) ? rng.chance(1, 24) ? 2 : 1 : 0; times > 0; --times) {
                    s.push_back(starts[i]);
                    l.push_back(rng.chance(1, 24) ? Term{0, 1, rng.in(1, 3)} : lengths[i]);
                    h.push_back(rng.chance(9, 10) ? Term{0, 1, std::min(cap + (rng.chance(1, 20) ? 1 : 0), step * rng.in(1, (cap + step - 1) / step))} : k.term(rng.in(0, 1), 3, true));
                    p.push_back(pres[i]);
                }
            if (s.empty())
                continue;
            auto c = k.con("cumulative");
            Term ct{0, 1, cap};
            if (rng.chance(1, 10))
                ct = k.term(cap, cap + 1, true);
            bool with_pres = optional;
            bool whole = ! with_pres && ct.v == 0;
            for (std::size_t i = 0; i < s.size(); ++i)
                whole = whole && l[i].v == 0 && h[i].v == 0;
            c.json.add("starts", terms_json(s)).add("lengths", terms_json(l)).add("heights", terms_json(h)).add("cap", ct.json()).add("pres", terms_json(with_pres ? p : vector<Term>{}));
            auto rules = some_rules(rng);
            c.post = [=](const Sink & to, const Ids & v) {
                auto consts = [](const vector<Term> & ts) { vector<Integer> r; for (auto & t : ts) r.emplace_back(t.o); return r; };
                auto q = whole ? gcs::Cumulative{ids_of(s, v), consts(l), consts(h), Integer{ct.o}}
                    : with_pres ? gcs::Cumulative{ids_of(s, v), ids_of(l, v), ids_of(h, v), ids_of(p, v), ct.id(v)}
                                : gcs::Cumulative{ids_of(s, v), ids_of(l, v), ids_of(h, v), ct.id(v)};
                if (rules)
                    q.with_rules(*rules);
                to.post(q);
            };
            cons.push_back(c);
        }
        for (auto q = rng.in(0, 2); q > 0; --q)
            cons.push_back(difference_con(k, rng.pick(starts), rng.pick(starts), rng.in(-3, 2)));
        makespan = 0;
        if (rng.chance(1, 2)) {
            makespan = k.new_var(k.domain(rng.in(0, horizon), horizon + 3));
            for (int i = 0; i < n; ++i)
                if (rng.chance(5, 6) && lengths[i].v == 0) {
                    auto c = k.con("linle");
                    Term ms{makespan, 1, 0}, st = starts[i];
                    auto len = lengths[i].o;
                    bool flip = rng.chance(1, 3);
                    c.json.add("sum", vector<J>{arr({J{flip ? -1 : 1}, ms.json()}), arr({J{flip ? 1 : -1}, st.json()})}).add("value", flip ? -len : len).add("r", k.reif_json("must", {})).add("ge", ! flip);
                    c.post = [=](const Sink & to, const Ids & v) {
                        if (flip)
                            to.post(gcs::LinearLessThanEqual{gcs::WeightedSum{} + -1_i * ms.id(v) + 1_i * st.id(v), Integer{-len}});
                        else
                            to.post(gcs::LinearGreaterThanEqual{gcs::WeightedSum{} + 1_i * ms.id(v) + -1_i * st.id(v), Integer{len}});
                    };
                    cons.push_back(c);
                }
        }
        rng.shuffle(cons);
        k.m.cons = cons;
        return k.m;
    }

    // difference constraints said in many ways over few variables
    inline auto difference_model(Rng & rng, long long limit) -> Model
    {
        Maker k(rng, limit);
        k.constants = 12;
        vector<Con> cons;
        auto n = static_cast<int>(rng.in(2, 5));
        for (int i = 0; i < n; ++i)
            k.new_var(k.domain(-1, 4));
        auto term = [&]() -> Term {
            if (rng.chance(1, 14))
                return {0, 1, rng.in(-1, 3)};
            Term t{static_cast<int>(rng.in(1, n)), 1, 0};
            if (rng.chance(1, 4))
                t.o = rng.in(-2, 2);
            if (rng.chance(1, 16))
                t.c = -1;
            return t;
        };
        for (auto q = rng.in(1, 7); q > 0; --q)
            if (rng.chance(1, 12))
                cons.push_back(generators().at(rng.pick(vector<string>{"difference", "alldiff", "linle", "compare"}))(k));
            else
                cons.push_back(difference_con(k, term(), term(), rng.in(-2, 3)));
        k.m.cons = cons;
        return k.m;
    }
}

#endif
