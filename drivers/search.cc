// Runs the real search over random small models with everything observable
// recorded: nodes, decisions, conflicts, callbacks, restarts and counters.

#include "model.hh"
#include "presolving.hh"

#include <gcs/innards/conflict_observer.hh>
#include <gcs/innards/propagators.hh>

#include <atomic>

using namespace verif;
using namespace gcs;

namespace
{
    struct Strategy
    {
        string vo, val;
        vector<Term> vars;
        bool whole_problem = false;
        unsigned long seed = 0;
        WeightingScheme scheme = WeightingScheme::Classic;

        auto json() const -> J
        {
            return Obj{}.add("vo", vo).add("val", val).add("vars", terms_json(vars));
        }
    };

    struct Plan
    {
        Model m;
        bool opt = false, maximise = false;
        Term objective{0, 1, 0};
        unsigned long long scale = 0;
        vector<Strategy> strategies;
        bool default_branch = false;
        bool trace = false;
        string stop = "none"; // solution trace abort-branch abort-trace abort-solution abort-conflict abort-before abort-started
        long stop_at = 0;
        std::uint64_t queries = 0;
        Presolving presolving;
        bool presolve_first = false;
    };

    // Decisions from a brancher of our own: lowest value, everything between, highest.
    auto threeway() -> BranchValueGenerator
    {
        return [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & var) -> std::generator<IntegerVariableCondition> {
            return [](const CurrentState & s, IntegerVariableID var) -> std::generator<IntegerVariableCondition> {
                auto lo = s.lower_bound(var), hi = s.upper_bound(var);
                bool inner = s.domain_size(var) > 2_i;
                co_yield var == lo;
                if (inner)
                    co_yield in_range(var, lo + 1_i, hi - 1_i);
                co_yield var == hi;
            }(s, var);
        };
    }

    auto heuristic(const Strategy & st, Problem & p, const Ids & ids) -> BranchHeuristic
    {
        auto vars = ids_of(st.vars, ids);
        BranchVariableHeuristic var = variable_order::in_order(vars);
        auto bigger = [](const CurrentState & s, const innards::Propagators &, const IntegerVariableID & a, const IntegerVariableID & b) {
            return s.domain_size(a) > s.domain_size(b);
        };
        if (st.vo == "dom")
            var = st.whole_problem ? variable_order::dom(p) : variable_order::dom(vars);
        else if (st.vo == "widest")
            var = st.whole_problem ? variable_order::in_order_of(p, bigger) : variable_order::in_order_of(vars, bigger);
        else if (st.vo == "dom_then_deg")
            var = st.whole_problem ? variable_order::dom_then_deg(p) : variable_order::dom_then_deg(vars);
        else if (st.vo == "smallest")
            var = st.whole_problem ? variable_order::with_smallest_value(p) : variable_order::with_smallest_value(vars);
        else if (st.vo == "largest")
            var = st.whole_problem ? variable_order::with_largest_value(p) : variable_order::with_largest_value(vars);
        else if (st.vo == "random")
            var = st.whole_problem ? variable_order::random(p, st.seed) : variable_order::random(vars, st.seed);
        else if (st.vo == "dom_wdeg" || st.vo == "weighted")
            var = st.whole_problem ? variable_order::dom_wdeg(p, st.scheme) : variable_order::dom_wdeg(vars, st.scheme);

        BranchValueGenerator val = value_order::smallest_in();
        if (st.val == "smallest_out")
            val = value_order::smallest_out();
        else if (st.val == "smallest_first")
            val = value_order::smallest_first();
        else if (st.val == "largest_in")
            val = value_order::largest_in();
        else if (st.val == "largest_out")
            val = value_order::largest_out();
        else if (st.val == "largest_first")
            val = value_order::largest_first();
        else if (st.val == "split_smallest_first")
            val = value_order::split_smallest_first();
        else if (st.val == "split_largest_first")
            val = value_order::split_largest_first();
        else if (st.val == "split_random")
            val = value_order::split_random(st.seed + 1);
        else if (st.val == "random")
            val = value_order::random(st.seed + 2);
        else if (st.val == "random_out")
            val = value_order::random_out(st.seed + 3);
        else if (st.val == "reject_random_interval")
            val = value_order::reject_random_interval(st.seed + 4);
        else if (st.val == "median")
            val = value_order::median();
        else if (st.val == "threeway")
            val = threeway();
        return branch_with(var, val);
    }

    struct Recorder : gcs::innards::ConflictObserver
    {
        const Plan & plan;
        Ids ids;
        std::function<void(const Obj &)> out;
        Rng rng;
        std::atomic<bool> abort{false};
        bool child_seen = true, stopped = false, begun = false, node_seen = false;
        std::map<unsigned long long, int> number;
        vector<SimpleIntegerVariableID> hidden;
        long solutions = 0, traces = 0, nodes = 0, conflicts = 0;
        struct Kept
        {
            CurrentState state;
            vector<vector<long long>> was;
        };
        vector<Kept> kept;

        Recorder(const Plan & p, std::function<void(const Obj &)> o) : plan(p), out(std::move(o)), rng(p.queries)
        {
        }

        auto doms(const CurrentState & s) -> vector<vector<long long>>
        {
            vector<vector<long long>> r;
            for (auto & v : ids) {
                r.emplace_back();
                for (auto x : s.each_value(v))
                    r.back().push_back(x.raw_value);
            }
            return r;
        }

        // variables of the constraints' own come after the model's
        auto numbered(const SimpleIntegerVariableID & v) -> int
        {
            if (auto f = number.find(v.index); f != number.end())
                return f->second;
            hidden.push_back(v);
            return number[v.index] = static_cast<int>(ids.size() + hidden.size());
        }
        auto open_hidden(const CurrentState & s) -> vector<int>
        {
            vector<int> r;
            for (std::size_t i = 0; i < hidden.size(); ++i)
                if (! s.has_single_value(hidden[i]))
                    r.push_back(static_cast<int>(ids.size() + i) + 1);
            return r;
        }

        auto decode(const IntegerVariableID & v) -> Term
        {
            if (auto x = std::get_if<SimpleIntegerVariableID>(&v))
                return {number.at(x->index), 1, 0};
            if (auto x = std::get_if<ViewOfIntegerVariableID>(&v))
                return {number.at(x->actual_variable.index), x->negate_first ? -1 : 1, x->then_add.raw_value};
            return {0, 1, std::get<ConstantIntegerVariableID>(v).const_value.raw_value};
        }

        auto decision(const IntegerVariableCondition & c) -> J
        {
            static const std::map<VariableConditionOperator, string> names{{VariableConditionOperator::Equal, "eq"},
                {VariableConditionOperator::NotEqual, "ne"}, {VariableConditionOperator::GreaterEqual, "ge"}, {VariableConditionOperator::Less, "lt"},
                {VariableConditionOperator::InRange, "in"}, {VariableConditionOperator::NotInRange, "notin"}};
            return Obj{}.add("t", decode(c.var).json()).add("op", names.at(c.op)).add("k", c.value.raw_value).add("k2", c.upper_value.raw_value);
        }

        auto query(const CurrentState & s) -> J
        {
            Term t{static_cast<int>(rng.in(0, static_cast<long long>(ids.size()))), 1, 0};
            if (t.v == 0 || rng.chance(1, 2)) {
                t.c = t.v != 0 && rng.chance(1, 2) ? -1 : 1;
                t.o = rng.in(-3, 3);
            }
            auto v = t.id(ids);
            vector<long long> vals, rev, copy;
            for (auto x : s.each_value(v))
                vals.push_back(x.raw_value);
            for (auto x : s.each_value_reversed(v))
                rev.push_back(x.raw_value);
            auto set = s.copy_of_values(v);
            for (auto x : set.each())
                copy.push_back(x.raw_value);
            auto k = rng.chance(1, 2) && ! vals.empty() ? vals[rng.in(0, vals.size() - 1)] : rng.in(-6, 8);
            return Obj{}
                .add("t", t.json())
                .add("vals", vals)
                .add("rev", rev)
                .add("copy", copy)
                .add("lo", s.lower_bound(v).raw_value)
                .add("hi", s.upper_bound(v).raw_value)
                .add("size", s.domain_size(v).raw_value)
                .add("single", s.has_single_value(v))
                .add("k", k)
                .add("isin", s.in_domain(v, Integer{k}));
        }

        auto note_conflict(int c, const vector<SimpleIntegerVariableID> &, const std::optional<gcs::innards::Reason> &, const gcs::innards::State &)
            -> void override
        {
            out(ev("conflict").add("c", c));
            if (plan.stop == "abort-conflict" && ++conflicts == plan.stop_at)
                abort = true;
        }
        auto on_restart() -> void override
        {
            node_seen = false;
            out(ev("restart"));
        }

        struct Frame
        {
            Recorder & r;
            bool done = false;
            ~Frame()
            {
                if (done)
                    return;
                if (! r.stopped && r.abort) {
                    r.stopped = true;
                    r.out(ev("stop"));
                }
                if (! r.stopped && ! r.child_seen)
                    r.out(ev("cut"));
                r.child_seen = true;
                r.out(ev("leave"));
            }
        };

        auto observed(const CurrentState & s, const gcs::innards::Propagators & p, const BranchCallback & inner) -> std::generator<IntegerVariableCondition>
        {
            child_seen = node_seen = true;
            ++nodes;
            out(ev("node").add("doms", doms(s)).add("open", open_hidden(s)).add("q", query(s)));
            if (kept.size() < 3 && rng.chance(1, 6))
                kept.push_back({s.clone(), doms(s)});
            if (plan.stop == "abort-branch" && nodes == plan.stop_at)
                abort = true;
            Frame frame{*this};
            bool any = false;
            auto gen = inner(s, p);
            for (auto it = gen.begin(); it != gen.end(); ++it) {
                any = true;
                out(ev("guess").add("g", decision(*it)));
                child_seen = false;
                co_yield *it;
                if (! child_seen)
                    out(ev("childless"));
                child_seen = true;
            }
            frame.done = true;
            out(ev(any ? "close" : "leaf"));
        }

        auto wrap(BranchHeuristic h) -> BranchHeuristic
        {
            return [this, h = std::move(h)](const Problem & problem, gcs::innards::State & state, gcs::innards::Propagators & props) -> BranchCallback {
                auto inner = h(problem, state, props);
                props.add_conflict_observer(this);
                vector<long> deg;
                for (auto & v : ids)
                    deg.push_back(props.degree_of(v));
                vector<J> scopes;
                for (std::size_t c = 0; c < props.number_of_constraints(); ++c) {
                    vector<int> sc;
                    for (auto & v : props.scope_of_constraint(static_cast<int>(c)))
                        sc.push_back(numbered(v));
                    scopes.push_back(J{sc});
                }
                begun = true;
                out(ev("begin").add("deg", deg).add("scopes", scopes));
                return [this, inner](const CurrentState & s, const gcs::innards::Propagators & p) { return observed(s, p, inner); };
            };
        }

        auto run() -> void
        {
            string thrown = "no";
            bool completed = false;
            Stats stats;
            try {
                Problem p;
                ids = plan.m.create(p);
                for (std::size_t i = 0; i < ids.size(); ++i)
                    number[std::get<SimpleIntegerVariableID>(ids[i]).index] = static_cast<int>(i) + 1;
                Sink sink{[&](const Constraint & c) { p.post(c); }};
                if (plan.presolve_first)
                    for (auto & a : plan.presolving.add)
                        a(p, ids);
                for (auto & c : plan.m.cons)
                    c.post(sink, ids);
                if (! plan.presolve_first)
                    for (auto & a : plan.presolving.add)
                        a(p, ids);
                if (plan.opt) {
                    auto v = plan.objective.id(ids);
                    if (plan.maximise)
                        p.maximise(v);
                    else
                        p.minimise(v);
                }
                SolveCallbacks cb;
                cb.solution = [&](const CurrentState & s) {
                    vector<long long> a;
                    for (auto & v : ids)
                        a.push_back(s(v).raw_value);
                    ++solutions;
                    out(ev("solution").add("a", a).add("obj", plan.opt ? s(plan.objective.id(ids)).raw_value : 0));
                    if (plan.stop == "abort-solution" && solutions == plan.stop_at)
                        abort = true;
                    if (plan.stop == "solution" && solutions == plan.stop_at) {
                        stopped = true;
                        out(ev("stop"));
                        return false;
                    }
                    return true;
                };
                if (plan.trace)
                    cb.trace = [&](const CurrentState & s) {
                        ++traces;
                        out(ev("trace").add("doms", doms(s)));
                        if (plan.stop == "abort-trace" && traces == plan.stop_at)
                            abort = true;
                        if (plan.stop == "trace" && traces == plan.stop_at) {
                            stopped = true;
                            out(ev("stop"));
                            return false;
                        }
                        return true;
                    };
                if (! plan.default_branch) {
                    auto h = heuristic(plan.strategies[0], p, ids);
                    for (std::size_t i = 1; i < plan.strategies.size(); ++i)
                        h = branch_sequence(h, heuristic(plan.strategies[i], p, ids));
                    cb.branch = wrap(h);
                }
                cb.after_proof_started = [&](const CurrentState & s) {
                    out(ev("started").add("doms", doms(s)));
                    if (plan.stop == "abort-started")
                        abort = true;
                };
                cb.completed = [&] { completed = true; };
                if (plan.scale)
                    cb.restarts = RestartSchedule::luby(plan.scale);
                if (plan.stop == "abort-before")
                    abort = true;
                stats = solve_with(p, std::move(cb), std::nullopt, &abort);
                if (begun && ! stopped && ! node_seen) {
                    if (abort && ! completed)
                        out(ev("stop"));
                    else
                        out(ev("childless"));
                }
            }
            catch (const InvalidProblemDefinitionException &) {
                thrown = "invalid";
            }
            catch (const std::exception & e) {
                thrown = string{"other: "} + e.what();
            }
            vector<J> clones;
            for (auto & k : kept)
                clones.push_back(Obj{}.add("was", k.was).add("now", doms(k.state)));
            Obj st;
            st.add("recursions", stats.recursions)
                .add("failures", stats.failures)
                .add("propagations", stats.propagations)
                .add("effectful", stats.effectful_propagations)
                .add("contradicting", stats.contradicting_propagations)
                .add("solutions", stats.solutions)
                .add("max_depth", stats.max_depth)
                .add("restarts", stats.restarts)
                .add("learned_nogoods", stats.learned_nogoods);
            out(ev("end").add("thrown", thrown).add("completed", completed).add("stats", st).add("clones", clones));
            if (! plan.presolving.add.empty() && thrown == "no") {
                vector<J> parts;
                for (auto & c : stats.components()) {
                    vector<J> es;
                    for (auto & e : c->entries())
                        es.push_back(arr({J{e.name}, J{e.value}}));
                    parts.push_back(Obj{}.add("n", c->component_name()).add("e", es).add("said", ! c->summary().empty()));
                }
                out(ev("components").add("parts", parts));
            }
        }
    };

    const vector<string> value_orders{"smallest_in", "smallest_out", "smallest_first", "largest_in", "largest_out", "largest_first",
        "split_smallest_first", "split_largest_first", "split_random", "random", "random_out", "reject_random_interval", "median", "threeway"};
    const vector<string> variable_orders{"in_order", "dom", "widest", "dom_then_deg", "smallest", "largest", "random", "dom_wdeg", "dom_wdeg", "weighted"};

    // constraints that promise, in their documentation, generalised arc
    // consistency when posted over distinct variables
    auto promises_gac(const Con & c) -> bool
    {
        auto starts = [&](const string & p) { return c.variant.starts_with(p); };
        if (c.kind == "alldiff")
            return starts("gac");
        if (c.kind == "element" || c.kind == "element2d")
            return starts("1") || starts("2");
        if (c.kind == "elementconst" || c.kind == "element2dconst")
            return starts("1");
        if (c.kind == "divide" || c.kind == "modulus" || c.kind == "multiply" || c.kind == "plus" || c.kind == "minus" || c.kind == "power")
            return starts("2");
        return c.kind == "alldiffexcept" || c.kind == "allequal" || c.kind == "regular" || c.kind == "regex" || c.kind == "table" || c.kind == "mdd";
    }

    auto strategy(Rng & rng, const Model & m, bool all) -> Strategy
    {
        Strategy s;
        s.vo = rng.pick(variable_orders);
        s.val = rng.pick(value_orders);
        s.seed = static_cast<unsigned long>(rng.in(1, 1000000));
        s.whole_problem = all && s.vo != "in_order" && rng.chance(1, 2);
        if (s.vo == "weighted")
            s.scheme = rng.pick(vector<WeightingScheme>{WeightingScheme::InitialArity, WeightingScheme::CurrentArity, WeightingScheme::InitialDomain,
                WeightingScheme::CurrentDomain, WeightingScheme::CurrentArityCurrentDomain, WeightingScheme::ConflictHistorySearch});
        vector<int> order;
        for (std::size_t i = 0; i < m.doms.size(); ++i)
            order.push_back(static_cast<int>(i) + 1);
        if (! s.whole_problem)
            rng.shuffle(order);
        if (! all)
            order.resize(static_cast<std::size_t>(rng.in(1, static_cast<long long>(order.size()))));
        bool views = ! s.whole_problem && rng.chance(1, 3);
        for (auto i : order) {
            Term t{i, 1, 0};
            if (views && rng.chance(1, 2)) {
                t.c = rng.chance(1, 2) ? -1 : 1;
                t.o = rng.in(-2, 2);
            }
            s.vars.push_back(t);
        }
        if (views && rng.chance(1, 4))
            s.vars.insert(s.vars.begin() + rng.in(0, static_cast<long long>(s.vars.size())), Term{0, 1, rng.in(-1, 2)});
        return s;
    }

    auto searches(const Args & args) -> void
    {
        Progress progress(args.out);
        Shards out(args.out, "search", args.shards);
        auto kinds = all_kinds();
        long n = args.n > 0 ? args.n : args.thorough ? 12000 : 1200;
        for (long round = 0; round < n; ++round) {
            Rng rng(args.seed * 7000003 + round * 13);
            Plan plan;
            bool restart = args.mode == "restart" || ((args.mode.empty() || args.mode == "presolve") && rng.chance(1, 3));
            bool opt = args.mode == "opt" || rng.chance(1, args.mode.empty() ? 3 : 4);
            if (args.mode == "sat" || args.mode == "branch")
                opt = false;
            vector<string> ks{kinds[round % kinds.size()]};
            while (rng.chance(1, 2) && ks.size() < 4)
                ks.push_back(rng.pick(kinds));
            bool alone = args.mode == "gac" || (args.mode == "domains" && rng.chance(1, 2));
            if (alone)
                ks.resize(1);
            long long limit = args.thorough ? 160 : 100;
            int makespan = 0;
            if (args.mode != "presolve")
                plan.m = make_model(rng, ks, limit, alone);
            else {
                auto what = rng.in(0, 9);
                plan.m = what < 2 ? make_model(rng, ks, limit) : what < 5 ? difference_model(rng, limit) : project_model(rng, 3 * limit, makespan);
            }
            if (plan.m.doms.empty())
                continue;
            if (args.mode == "presolve") {
                plan.presolving = random_presolvers(rng, plan.m, makespan, rng.chance(1, 3) ? "adsjc" : makespan ? "sjca" : "adddsjc");
                plan.presolve_first = rng.chance(1, 3);
            }
            plan.opt = opt;
            if (opt) {
                plan.maximise = rng.chance(1, 2);
                if (rng.chance(1, 12))
                    plan.objective = {0, 1, rng.in(-2, 2)};
                else {
                    plan.objective.v = static_cast<int>(rng.in(1, static_cast<long long>(plan.m.doms.size())));
                    if (rng.chance(1, 3)) {
                        plan.objective.c = rng.chance(1, 2) ? -1 : 1;
                        plan.objective.o = rng.in(-3, 3);
                    }
                }
            }
            if (restart)
                plan.scale = static_cast<unsigned long long>(rng.chance(1, 2) ? 1 : rng.in(1, 6));
            if (rng.chance(1, 5)) {
                plan.strategies.push_back(strategy(rng, plan.m, false));
                if (rng.chance(1, 4))
                    plan.strategies.push_back(strategy(rng, plan.m, false));
            }
            plan.strategies.push_back(strategy(rng, plan.m, true));
            plan.trace = rng.chance(1, 2);
            if (rng.chance(1, 4)) {
                plan.stop = rng.pick(vector<string>{"solution", "solution", "trace", "abort-branch", "abort-trace", "abort-solution", "abort-conflict", "abort-before", "abort-started"});
                plan.stop_at = rng.chance(1, 2) ? rng.in(1, 3) : rng.in(1, 15);
                if (plan.stop == "trace" || plan.stop == "abort-trace")
                    plan.trace = true;
            }
            plan.queries = rng.next();

            progress(plan.m.describe());
            Obj o = ev("setup");
            plan.m.json(o);
            vector<J> strategies, variants;
            for (auto & s : plan.strategies)
                strategies.push_back(s.json());
            for (auto & c : plan.m.cons)
                variants.push_back(c.variant);
            o.add("obj", Obj{}.add("on", plan.opt).add("t", plan.objective.json()).add("sign", plan.maximise ? -1 : 1))
                .add("scale", plan.scale)
                .add("strategies", strategies)
                .add("trace", plan.trace)
                .add("abort", plan.stop != "none")
                .add("gac", alone && ! plan.m.shared && (args.mode == "gac" || promises_gac(plan.m.cons[0])))
                .add("how", plan.stop)
                .add("presolvers", plan.presolving.json)
                .add("variants", variants);
            out(o);
            string log;
            Recorder r(plan, [&](const Obj & e) { out(e); log += e.str() + "\n"; });
            r.run();
            if (rng.chance(1, 8)) {
                string second;
                Recorder r2(plan, [&](const Obj & e) { second += e.str() + "\n"; });
                r2.run();
                out(ev("repeat").add("what", "the same search again").add("first", std::to_string(std::hash<string>{}(log))).add("second", std::to_string(std::hash<string>{}(second))));
            }
            if (rng.chance(1, 8)) {
                // with no strategy of its own, a search uses the default one
                auto plan2 = plan;
                Strategy s;
                s.vo = "dom_then_deg";
                s.val = "smallest_first";
                for (std::size_t i = 0; i < plan.m.doms.size(); ++i)
                    s.vars.push_back({static_cast<int>(i) + 1, 1, 0});
                plan2.strategies = {s};
                plan2.trace = true;
                plan2.stop = "none";
                auto plan3 = plan2;
                plan3.default_branch = true;
                auto calls = [](string & log) {
                    return [&log](const Obj & e) {
                        if (e.s.starts_with("{\"ev\":\"trace\"") || e.s.starts_with("{\"ev\":\"solution\""))
                            log += e.str() + "\n";
                    };
                };
                string a, b;
                Recorder ra(plan2, calls(a)), rb(plan3, calls(b));
                ra.run();
                rb.run();
                out(ev("repeat").add("what", "the default strategy").add("first", std::to_string(std::hash<string>{}(a))).add("second", std::to_string(std::hash<string>{}(b))));
            }
            out.next();
        }
    }
}

auto main(int argc, char ** argv) -> int
{
    Args args(argc, argv);
    searches(args);
    return 0;
}
