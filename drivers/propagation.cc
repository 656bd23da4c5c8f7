// Drives the propagation engine with scripted propagators, which ask to be
// woken for random kinds of change and watch for random conditions, make random
// inferences, give up, claim to be at their fixpoint, move their watches and
// meet contradictions, under random decisions, save points and returns, for
// PropagationTrace.tla.
#include "common.hh"
#include <gcs/exception.hh>
#include <gcs/innards/conflict_observer.hh>
#include <gcs/innards/inference_tracker.hh>
#include <gcs/innards/justification.hh>
#include <gcs/innards/literal.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/reason.hh>
#include <gcs/innards/state.hh>
#include <gcs/integer.hh>
#include <gcs/stats.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>
#include <util/overloaded.hh>
#include <algorithm>
#include <atomic>
#include <memory>
#include <optional>
#include <variant>
using namespace verif;
using namespace gcs;
using namespace gcs::innards;

namespace
{
    using Vals = std::vector<long long>;

    struct T
    {
        int v;
        long long c, o;
    };
    struct Cond
    {
        T t;
        std::string op;
        long long a, b;
    };
    const std::vector<std::string> ops{"eq", "ne", "ne", "lt", "ge", "in", "notin"};

    auto json(const T & t) -> Vals
    {
        return {t.v, t.c, t.o};
    }

    // Identities only refer to the names they were given.
    const std::vector<std::string> names = []() {
        std::vector<std::string> r;
        for (int i = 0; i <= 20; ++i)
            r.push_back("c" + std::to_string(i));
        return r;
    }();

    struct Session;

    struct Observer final : ConflictObserver
    {
        Session & s;
        explicit Observer(Session & s) : s(s)
        {
        }
        auto note_conflict(int index, const std::vector<SimpleIntegerVariableID> & scope, const std::optional<Reason> & reason, const State &) -> void override;
    };

    struct Session
    {
        Shards & out;
        Rng & rng;
        std::unique_ptr<State> state;
        std::unique_ptr<Stats> stats;
        std::unique_ptr<Propagators> props;
        std::vector<SimpleIntegerVariableID> vars;
        std::vector<Timestamp> stamps;
        std::vector<long long> cids;                // of each propagator
        std::vector<std::vector<int>> scopes;       // of each propagator
        std::vector<std::string> conflicts;
        std::unique_ptr<Observer> first, second;
        std::atomic<bool> abort{false};
        long long pays = 0;
        long inits = 0, declared = 0, notes = 0;
        bool reasoned = false;
        int liveliness = 3;
        bool busy = false; // more of everything

        auto id(const T & t) -> IntegerVariableID
        {
            if (t.v == 0)
                return ConstantIntegerVariableID{Integer{t.o}};
            if (t.c == 1 && t.o == 0)
                return vars[t.v - 1];
            return ViewOfIntegerVariableID{vars[t.v - 1], t.c == -1, Integer{t.o}};
        }
        template <typename Var_>
        static auto condition(const Var_ & v, const Cond & c) -> VariableConditionFrom<Var_>
        {
            using enum VariableConditionOperator;
            auto a = Integer{c.a}, b = Integer{c.b};
            if (c.op == "eq")
                return v == a;
            if (c.op == "ne")
                return v != a;
            if (c.op == "lt")
                return v < a;
            if (c.op == "ge")
                return v >= a;
            return VariableConditionFrom<Var_>{v, c.op == "in" ? InRange : NotInRange, a, b};
        }
        auto literal(const Cond & c) -> Literal
        {
            return Literal{condition(id(c.t), c)};
        }
        auto values(const T & t) -> Vals
        {
            Vals r;
            for (auto x : state->each_value_immutable(id(t)))
                r.push_back(x.raw_value);
            return r;
        }
        auto doms() -> std::vector<Vals>
        {
            std::vector<Vals> r;
            for (int v = 1; v <= static_cast<int>(vars.size()); ++v)
                r.push_back(values({v, 1, 0}));
            return r;
        }
        auto number_of(const SimpleIntegerVariableID & v) -> long long
        {
            return std::find(vars.begin(), vars.end(), v) - vars.begin() + 1;
        }
        auto constraint(long long cid) -> ConstraintID
        {
            if (cid % 3 == 0)
                return ConstraintID{NamedConstraint{names[cid]}};
            return ConstraintID{NumberedConstraint{static_cast<unsigned long long>(cid)}};
        }
        auto cid_of(const ConstraintID & c) -> long long
        {
            for (long long i = 1; i <= 20; ++i)
                if (constraint(i) == c)
                    return i;
            return -1;
        }

        auto term(const std::vector<int> & among, bool constants = true) -> T
        {
            if (constants && rng.chance(1, 12))
                return {0, 1, rng.in(-2, 3)};
            T t{rng.pick(among), 1, 0};
            if (rng.chance(1, 3)) {
                t.c = rng.chance(1, 2) ? 1 : -1;
                t.o = rng.in(-3, 3);
            }
            return t;
        }
        // A condition on the term, undecided if so asked and if there is one.
        auto cond(const T & t, bool undecided) -> std::optional<Cond>
        {
            auto vs = values(t);
            if (undecided && vs.size() < 2)
                return std::nullopt;
            for (int tries = 0; tries < 20; ++tries) {
                Cond c{t, rng.pick(ops), 0, 0};
                c.a = rng.chance(4, 5) ? rng.pick(vs) : rng.pick(vs) + rng.in(-1, 1);
                if (c.op == "in" || c.op == "notin") {
                    c.b = rng.chance(4, 5) ? rng.pick(vs) : rng.pick(vs) + rng.in(-1, 1);
                    if (c.a > c.b)
                        std::swap(c.a, c.b);
                }
                if (! undecided || state->test_literal(literal(c)) == LiteralIs::Undecided)
                    return c;
            }
            return std::nullopt;
        }
        // Something gentle to infer: removing a value, mostly.
        auto inference(const std::vector<int> & among) -> Cond
        {
            auto t = term(among);
            if (t.v != 0 && rng.chance(7, 8)) {
                auto c = cond(t, true);
                if (c && (c->op != "eq" || rng.chance(1, 3)))
                    return *c;
                auto vs = values(t);
                return {t, "ne", vs.size() > 1 && rng.chance(5, 6) ? rng.pick(vs) : vs.back() + 1, 0};
            }
            return *cond(t, false);
        }
        auto add(Obj o, const Cond & c) -> Obj
        {
            return o.add("t", json(c.t)).add("op", c.op).add("a", c.a).add("b", c.b);
        }

        struct Emit
        {
            auto operator()(const ReasonLiterals &) const -> void
            {
            }
        };

        template <typename Tracker_, typename Var_, typename Why_>
        auto by_method(Tracker_ & inf, ProofLogger * logger, const Var_ & v, const Cond & c, const Why_ & why, const Reason & reason) -> void
        {
            auto a = Integer{c.a}, b = Integer{c.b};
            if (c.op == "eq")
                inf.infer_equal(logger, v, a, why, reason);
            else if (c.op == "ne")
                inf.infer_not_equal(logger, v, a, why, reason);
            else if (c.op == "lt")
                inf.infer_less_than(logger, v, a, why, reason);
            else if (c.op == "ge")
                inf.infer_greater_than_or_equal(logger, v, a, why, reason);
            else if (c.op == "notin")
                inf.infer_not_in_range(logger, v, a, b, why, reason);
            else
                inf.infer(logger, condition(v, c), why, reason);
        }

        // One inference, however it is made; false if there is no carrying on.
        template <typename Tracker_>
        auto infer(Tracker_ & inf, ProofLogger * logger, const std::vector<int> & among, const std::string & ev_name, bool stopping) -> bool
        {
            auto c = inference(among);
            reasoned = rng.chance(1, 2);
            std::vector<IntegerVariableID> rs;
            for (auto v : among)
                rs.push_back(vars[v - 1]);
            Reason reason = reasoned ? generic_reason(rs) : Reason{NoReason{}};
            auto explicitly = JustifyExplicitly{Emit{}, ThenRUP::Yes};
            auto v = id(c.t);
            if (stopping && (c.op == "lt" || c.op == "ge") && rng.chance(1, 2)) {
                out(add(ev(ev_name), c));
                if (rng.chance(1, 2)) {
                    std::optional<Integer> r;
                    if (c.op == "lt")
                        r = inf.infer_less_than_or_stop_with_updated_bound(logger, v, Integer{c.a}, explicitly, reason);
                    else
                        r = inf.infer_greater_than_or_equal_or_stop_with_updated_bound(logger, v, Integer{c.a}, explicitly, reason);
                    out(ev("updated").add("t", json(c.t)).add("upper", c.op == "lt").add("value", r ? Vals{r->raw_value} : Vals{}));
                    return r.has_value();
                }
                bool r = c.op == "lt" ? inf.infer_less_than_or_stop(logger, v, Integer{c.a}, explicitly, reason) : inf.infer_greater_than_or_equal_or_stop(logger, v, Integer{c.a}, explicitly, reason);
                out(ev("carry_on").add("value", r));
                return r;
            }
            switch (rng.in(0, 7)) {
            case 0:
                out(add(ev(ev_name), c));
                inf.infer(logger, literal(c), Justification{JustifyUsingRUP{}}, reason);
                break;
            case 1:
                out(add(ev(ev_name), c));
                std::visit([&](const auto & x) { inf.infer(logger, condition(x, c), Justification{JustifyUsingRUP{}}, reason); }, v);
                break;
            case 2:
                out(add(ev(ev_name), c));
                inf.infer(logger, literal(c), explicitly, reason);
                break;
            case 3:
                out(add(ev(ev_name), c));
                std::visit([&](const auto & x) { inf.infer(logger, condition(x, c), explicitly, reason); }, v);
                break;
            case 4:
                out(add(ev(ev_name), c));
                std::visit([&](const auto & x) { by_method(inf, logger, x, c, explicitly, reason); }, v);
                break;
            case 5:
                out(add(ev(ev_name), c));
                by_method(inf, logger, v, c, Justification{NoJustificationNeeded{}}, reason);
                break;
            case 6:
                out(add(ev(ev_name), c));
                std::visit([&](const auto & x) { by_method(inf, logger, x, c, Justification{JustifyUsingRUP{}}, reason); }, v);
                break;
            default: {
                auto d = inference(among);
                out(add(ev(ev_name), c));
                out(add(ev(ev_name), d));
                if (rng.chance(1, 2))
                    inf.infer_all(logger, std::vector<Literal>{literal(c), literal(d)}, Justification{JustifyUsingRUP{}}, reason);
                else
                    inf.infer_all(logger, std::vector<Literal>{literal(c), literal(d)}, explicitly, reason);
                break;
            }
            }
            return true;
        }

        template <typename Tracker_>
        auto work(int p, Tracker_ & inf, ProofLogger * logger, const RefinedWatchContext & watches) -> PropagatorState
        {
            Vals got, watching_v, kept;
            for (auto x : watches.fired_payloads())
                got.push_back(x);
            std::vector<bool> watching;
            for (auto & v : vars)
                watching.push_back(watches.is_watching(rng.chance(1, 2) ? IntegerVariableID{v} : IntegerVariableID{-v + 1_i}));
            for (unsigned k = 0; k < 3; ++k)
                kept.push_back(static_cast<long long>(watches.watch_state(k)));
            std::string w = "[";
            for (std::size_t i = 0; i < watching.size(); ++i)
                w += std::string(i ? "," : "") + (watching[i] ? "true" : "false");
            auto o = ev("run").add("p", p).add("got", got).add("doms", doms()).add("kept", kept);
            o.add("watching", J{J::Raw{w + "]"}});
            out(o);
            const auto & scope = scopes[p - 1];
            if (! scope.empty()) {
                auto steps = rng.in(0, liveliness);
                for (int i = 0; i < steps; ++i)
                    switch (rng.in(0, 9)) {
                    case 0:
                    case 1:
                    case 2:
                    case 3:
                        if (! infer(inf, logger, scope, "infer", true)) {
                            out(ev("finish").add("how", "enable"));
                            return PropagatorState::Enable;
                        }
                        break;
                    case 4:
                    case 5:
                    case 6: {
                        auto c = cond(term(scope, false), true);
                        if (c) {
                            out(add(ev("arm"), *c).add("pay", ++pays));
                            watches.watch(literal(*c), static_cast<std::uint32_t>(pays));
                        }
                        break;
                    }
                    case 7:
                        if (rng.chance(1, 2)) {
                            out(ev("clear"));
                            watches.clear_watches();
                        }
                        break;
                    case 8: {
                        auto k = rng.in(0, 2), x = rng.in(0, 9);
                        out(ev("keep").add("k", k).add("x", x));
                        watches.set_watch_state(static_cast<std::uint32_t>(k), static_cast<std::uint64_t>(x));
                        break;
                    }
                    default: {
                        auto made = inf.made_progress_since_last_check();
                        out(ev("ask").add("value", made).add("dead", inf.contradicted()));
                    }
                    }
            }
            if (rng.chance(1, busy ? 25 : 150)) {
                reasoned = rng.chance(1, 2);
                out(ev("contradict"));
                Reason reason = reasoned ? generic_reason(std::vector<IntegerVariableID>{vars[0]}) : Reason{NoReason{}};
                if (rng.chance(1, 2))
                    inf.contradiction(logger, JustifyUsingRUP{}, reason);
                else
                    inf.contradiction(logger, JustifyExplicitly{Emit{}, ThenRUP::Yes}, reason);
            }
            if (rng.chance(1, 600))
                abort.store(true);
            auto how = rng.in(0, 15);
            if (how == 0) {
                out(ev("finish").add("how", "disable"));
                return PropagatorState::DisableUntilBacktrack;
            }
            if (how <= (busy ? 7 : 4)) {
                out(ev("finish").add("how", "idempotent"));
                return PropagatorState::EnableButIdempotent;
            }
            out(ev("finish").add("how", "enable"));
            return PropagatorState::Enable;
        }

        auto install() -> void
        {
            std::vector<int> all;
            for (int v = 1; v <= static_cast<int>(vars.size()); ++v)
                all.push_back(v);
            // Claims are only believed if every place is a variable of its own.
            bool apart = rng.chance(2, 3);
            auto left = all;
            rng.shuffle(left);
            auto terms = [&](int most) {
                std::vector<T> r;
                auto n = rng.in(0, most);
                for (int i = 0; i < n; ++i)
                    if (! apart)
                        r.push_back(term(all));
                    else if (! left.empty()) {
                        r.push_back(term({left.back()}));
                        left.pop_back();
                    }
                return r;
            };
            auto most = busy ? 3 : 2;
            auto change = terms(busy || rng.chance(1, 2) ? most : 0), bounds = terms(rng.chance(1, 2) ? most : 0), inst = terms(rng.chance(1, 2) ? 2 : 0), only = terms(rng.chance(1, 2) ? 2 : 0);
            Triggers t;
            std::vector<int> scope;
            auto jsons = [&](const std::vector<T> & ts, std::vector<IntegerVariableID> & ids) {
                std::vector<Vals> r;
                for (auto & x : ts) {
                    r.push_back(json(x));
                    ids.push_back(id(x));
                    if (x.v != 0)
                        scope.push_back(x.v);
                }
                return r;
            };
            auto cid = rng.in(1, 5);
            auto o = ev("install").add("cid", cid).add("change", jsons(change, t.on_change)).add("bounds", jsons(bounds, t.on_bounds)).add("inst", jsons(inst, t.on_instantiated)).add("scope", jsons(only, t.scope_only));
            std::string refined = "[";
            for (auto n = rng.chance(1, 2) ? rng.in(1, 3) : 0; n > 0; --n) {
                auto c = cond(term(all), false);
                if (! c)
                    continue;
                t.refined.emplace_back(literal(*c), static_cast<std::uint32_t>(++pays));
                refined += std::string(refined.size() > 1 ? "," : "") + "[" + J(json(c->t)).s + "," + quote(c->op) + "," + std::to_string(c->a) + "," + std::to_string(c->b) + "," + std::to_string(pays) + "]";
                if (c->t.v != 0)
                    scope.push_back(c->t.v);
            }
            o.add("refined", J{J::Raw{refined + "]"}});
            out(o);
            std::sort(scope.begin(), scope.end());
            scope.erase(std::unique(scope.begin(), scope.end()), scope.end());
            cids.push_back(cid);
            scopes.push_back(scope);
            int p = static_cast<int>(scopes.size());
            props->install(constraint(cid), [this, p](const State &, auto & inf, ProofLogger * const logger, const RefinedWatchContext & watches) -> PropagatorState { return work(p, inf, logger, watches); }, t);
        }

        auto ask() -> void
        {
            std::vector<Vals> scopes_now, adjacent;
            Vals degree, degree_view, owner, index;
            for (std::size_t p = 0; p < scopes.size(); ++p) {
                Vals s;
                for (auto & v : props->scope_of_propagator(static_cast<int>(p)))
                    s.push_back(number_of(v));
                scopes_now.push_back(s);
                auto i = props->constraint_index_of_propagator(static_cast<int>(p));
                index.push_back(i);
                owner.push_back(cid_of(props->constraint_id_for_index(i)));
            }
            for (auto & v : vars) {
                degree.push_back(props->degree_of(v));
                degree_view.push_back(props->degree_of(-v + 2_i));
                Vals a;
                for (auto i : props->constraint_indices_of_variable(v))
                    a.push_back(cid_of(props->constraint_id_for_index(i)));
                adjacent.push_back(a);
            }
            std::string cs = "[";
            for (std::size_t i = 0; i < props->number_of_constraints(); ++i) {
                Vals s;
                for (auto & v : props->scope_of_constraint(static_cast<int>(i)))
                    s.push_back(number_of(v));
                cs += std::string(i ? "," : "") + Obj{}.add("cid", cid_of(props->constraint_id_for_index(static_cast<int>(i)))).add("scope", s).str();
            }
            auto o = ev("static").add("constraints", static_cast<long long>(props->number_of_constraints())).add("degree", degree).add("degree_view", degree_view).add("scopes", scopes_now).add("owner", owner).add("index", index).add("adjacent", adjacent);
            o.add("cscopes", J{J::Raw{cs + "]"}});
            out(o);
        }

        auto retire() -> void
        {
            Vals which;
            std::vector<ConstraintID> ids;
            for (auto n = rng.in(0, 2); n > 0; --n) {
                which.push_back(rng.in(1, 7));
                ids.push_back(constraint(which.back()));
            }
            auto count = props->disable_propagators_for_constraints(ids);
            out(ev("retire").add("cids", which).add("count", static_cast<long long>(count)));
        }

        auto add_initialiser(int depth) -> void
        {
            auto prio = rng.in(0, 2);
            auto n = ++inits;
            out(ev("add_init").add("prio", prio));
            props->install_initialiser([this, n, depth](State &, auto & inf, ProofLogger * const logger) -> void {
                out(ev("init").add("n", n));
                std::vector<int> all;
                for (int v = 1; v <= static_cast<int>(vars.size()); ++v)
                    all.push_back(v);
                if (rng.chance(1, 2))
                    (void)infer(inf, logger, all, "init_infer", false);
                if (depth < 2 && rng.chance(1, 3))
                    add_initialiser(depth + 1);
            },
                static_cast<InitialiserPriority>(prio));
        }
        auto initialise() -> bool
        {
            out(ev("initialise"));
            auto ok = props->initialise(*state, nullptr);
            out(ev("initialised").add("ok", ok).add("doms", doms()).add("declared", declared).add("notes", notes));
            return ok;
        }

        auto propagate(const Literals & guesses) -> bool
        {
            out(ev("start").add("all", guesses.empty()));
            conflicts.clear();
            abort.store(false);
            auto ok = props->propagate(guesses, *state, nullptr, &abort);
            std::string cs = "[";
            for (std::size_t i = 0; i < conflicts.size(); ++i)
                cs += (i ? "," : "") + conflicts[i];
            auto o = ev("stop").add("ok", ok).add("aborted", abort.load()).add("doms", doms()).add("reasoned", reasoned);
            o.add("conflicts", J{J::Raw{cs + "]"}});
            out(o);
            return ok;
        }

        auto report() -> void
        {
            Stats s;
            props->fill_in_constraint_stats(s);
            out(ev("stats").add("runs", static_cast<long long>(s.propagations)).add("effectful", static_cast<long long>(s.effectful_propagations)).add("contradicting", static_cast<long long>(s.contradicting_propagations)).add("propagators", static_cast<long long>(s.n_propagators)).add("downgrades", static_cast<long long>(s.idempotence_downgrades)));
        }

        auto root() -> bool
        {
            if (! propagate({}))
                return false;
            return ! abort.load();
        }

        auto play() -> void
        {
            out.next();
            state = std::make_unique<State>();
            stats = std::make_unique<Stats>();
            notes = declared = 0;
            stats->set_report_handler([this](const StatsNote & n) { if (n.level == StatsLevel::Important) ++notes; });
            props = std::make_unique<Propagators>(*stats);
            vars.clear();
            stamps.clear();
            cids.clear();
            scopes.clear();
            pays = inits = 0;
            liveliness = static_cast<int>(rng.in(1, 7));
            std::vector<Vals> bounds;
            busy = rng.chance(1, 2);
            auto n = rng.in(busy ? 3 : 1, busy ? 6 : 5);
            for (int i = 0; i < n; ++i) {
                auto a = rng.in(-2, 2);
                bounds.push_back({a, a + rng.pick(Vals{0, 1, 3, 5, 7, 9})});
                vars.push_back(state->allocate_integer_variable_with_state(Integer{bounds.back()[0]}, Integer{bounds.back()[1]}));
            }
            out(ev("begin").add("doms", bounds));
            first = std::make_unique<Observer>(*this);
            second = std::make_unique<Observer>(*this);
            props->add_conflict_observer(first.get());
            props->add_conflict_observer(second.get());
            for (auto k = rng.in(busy ? 4 : 1, busy ? 10 : 8); k > 0; --k)
                install();
            ask();
            if (rng.chance(1, 5))
                retire();
            switch (rng.in(0, 5)) {
            case 0: {
                std::vector<int> all;
                for (int v = 1; v <= static_cast<int>(vars.size()); ++v)
                    all.push_back(v);
                for (auto k = rng.in(1, 3); k > 0; --k) {
                    auto t = term(all);
                    auto vs = values(t);
                    auto lower = rng.chance(1, 2);
                    auto a = rng.pick(vs) + rng.in(-1, 1);
                    out(ev("define").add("t", json(t)).add("op", lower ? "ge" : "lt").add("a", lower ? a : a + 1));
                    props->define_bound(*state, nullptr, id(t), lower ? Bound::Lower : Bound::Upper, Integer{a});
                }
                if (! initialise())
                    return;
                break;
            }
            case 1:
                if (rng.chance(1, 8)) {
                    ++declared;
                    out(ev("contradict"));
                    props->install_initial_contradiction(constraint(1), "thing", "a thing is empty", JustifyUsingRUP{});
                    (void)initialise();
                    return;
                }
                [[fallthrough]];
            default:
                for (auto k = rng.in(0, 4); k > 0; --k)
                    add_initialiser(0);
                if (! initialise())
                    return;
            }
            if (! root()) {
                report();
                return;
            }
            if (rng.chance(1, 4)) {
                for (auto k = rng.in(1, 2); k > 0; --k)
                    install();
                for (auto k = rng.in(0, 2); k > 0; --k)
                    add_initialiser(0);
                if (! initialise())
                    return;
                ask();
                if (rng.chance(1, 2))
                    retire();
                if (! root()) {
                    report();
                    return;
                }
            }
            std::vector<int> all;
            for (int v = 1; v <= static_cast<int>(vars.size()); ++v)
                all.push_back(v);
            for (auto steps = rng.in(5, busy ? 80 : 60); steps > 0; --steps) {
                if (stamps.size() >= 5 || (! stamps.empty() && rng.chance(1, 3))) {
                    go_back();
                    continue;
                }
                if (rng.chance(1, 40))
                    retire();
                Literals guesses;
                auto before = stamps.size();
                for (auto k = rng.chance(1, 4) ? 2 : 1; k > 0; --k) {
                    auto c = cond(term(all, false), true);
                    if (! c)
                        continue;
                    if (stamps.size() == before) {
                        stamps.push_back(state->new_epoch());
                        out(ev("save"));
                    }
                    out(add(ev("decide"), *c));
                    if (rng.chance(1, 2) && c->op != "in" && c->op != "notin")
                        state->guess(literal(*c));
                    else
                        (void)state->infer(literal(*c));
                    guesses.push_back(literal(*c));
                }
                if (guesses.empty()) {
                    if (stamps.empty())
                        break;
                    go_back();
                    continue;
                }
                auto ok = propagate(guesses);
                if (ok && abort.load())
                    break;
                if (! ok)
                    go_back();
            }
            report();
            ask();
        }

        auto go_back() -> void
        {
            auto to = rng.chance(2, 3) ? stamps.size() - 1 : static_cast<std::size_t>(rng.in(0, static_cast<long long>(stamps.size()) - 1));
            state->backtrack(stamps[to]);
            stamps.resize(to, stamps[0]);
            out(ev("return").add("to", static_cast<long long>(to) + 1));
        }
    };

    auto Observer::note_conflict(int index, const std::vector<SimpleIntegerVariableID> & scope, const std::optional<Reason> & reason, const State &) -> void
    {
        Vals vs;
        for (auto & v : scope)
            vs.push_back(s.number_of(v));
        bool some = reason.has_value() && reason->visit(overloaded{[](const NoReason &) { return false; }, [](const auto &) { return true; }});
        s.conflicts.push_back(Obj{}.add("cid", s.cid_of(s.props->constraint_id_for_index(index))).add("scope", vs).add("reason", some).str());
    }
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Shards out(args.out, "queue", args.shards);
    Progress progress(args.out);
    Rng rng(args.seed);
    long n = args.n >= 0 ? args.n : args.thorough ? 30000 : 1600;
    for (long i = 0; i < n; ++i) {
        progress("session " + std::to_string(i));
        Session s{.out = out, .rng = rng};
        s.play();
    }
    return 0;
}
