// Drives the store of domains (State, and CurrentState over it) through every
// kind of inference on small domains, and through random histories of
// inferences, guesses, save points and returns, for StateStoreTrace.tla.
// Values are written relative to the base the domains lie at.
#include "common.hh"
#include <gcs/current_state.hh>
#include <gcs/exception.hh>
#include <gcs/innards/literal.hh>
#include <gcs/innards/state.hh>
#include <gcs/integer.hh>
#include <gcs/interval_set.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>
#include <algorithm>
#include <any>
#include <memory>
#include <optional>
#include <variant>
using namespace verif;
using namespace gcs;
using namespace gcs::innards;

namespace
{
    using Vals = std::vector<long long>;
    using Runs = std::vector<Vals>;

    struct T
    {
        int v;
        long long c, o;
    };

    auto name_of(Inference i) -> std::string
    {
        switch (i) {
        case Inference::NoChange: return "none";
        case Inference::BoundsChanged: return "bounds";
        case Inference::InteriorValuesChanged: return "interior";
        case Inference::Instantiated: return "instantiated";
        case Inference::Contradiction: return "contradiction";
        }
        return "?";
    }
    auto name_of(LiteralIs i) -> std::string
    {
        switch (i) {
        case LiteralIs::DefinitelyTrue: return "true";
        case LiteralIs::DefinitelyFalse: return "false";
        case LiteralIs::Undecided: return "undecided";
        }
        return "?";
    }

    const std::vector<std::string> ops{"eq", "ne", "lt", "ge", "in", "notin"};

    struct Session
    {
        Shards & out;
        Progress & progress;
        long long base = 0;
        std::unique_ptr<State> state;
        std::vector<SimpleIntegerVariableID> vars;
        Vals lo, hi;
        std::vector<Timestamp> stamps;
        std::vector<ConstraintStateHandle> handles;
        std::vector<long long> hooks; // run by the return under way
        int hook_count = 0;
        long sessions = 0;
        bool dead = false;
        std::vector<std::unique_ptr<CurrentState>> kept;

        auto begin(long long b, const Runs & bounds) -> void
        {
            out.next();
            base = b;
            progress("session " + std::to_string(++sessions));
            kept.clear();
            state = std::make_unique<State>();
            vars.clear();
            stamps.clear();
            handles.clear();
            hook_count = 0;
            dead = false;
            lo.clear();
            hi.clear();
            Vals next;
            for (auto & d : bounds) {
                next.push_back(static_cast<long long>(state->what_variable_id_will_be_created_next().index));
                vars.push_back(state->allocate_integer_variable_with_state(Integer{b + d[0]}, Integer{b + d[1]}));
                next.push_back(static_cast<long long>(vars.back().index));
                lo.push_back(d[0]);
                hi.push_back(d[1]);
            }
            out(ev("begin").add("base", std::to_string(b)).add("bounds", bounds).add("ids", next));
        }

        auto off(const T & t) const -> long long
        {
            return t.v == 0 ? 0 : t.c * base;
        }
        auto real(const T & t, long long rel) const -> Integer
        {
            return Integer{rel + off(t)};
        }
        auto rel(const T & t, Integer x) const -> long long
        {
            return x.raw_value - off(t);
        }
        auto json(const T & t) const -> Vals
        {
            return {t.v, t.c, t.o};
        }
        auto id(const T & t, bool plain = true) const -> IntegerVariableID
        {
            if (t.v == 0)
                return ConstantIntegerVariableID{Integer{t.o}};
            if (plain && t.c == 1 && t.o == 0)
                return vars[t.v - 1];
            return ViewOfIntegerVariableID{vars[t.v - 1], t.c == -1, Integer{t.o}};
        }

        template <typename Var_>
        auto condition(const Var_ & v, const std::string & op, Integer a, Integer b) -> VariableConditionFrom<Var_>
        {
            using enum VariableConditionOperator;
            if (op == "eq")
                return v == a;
            if (op == "ne")
                return v != a;
            if (op == "lt")
                return v < a;
            if (op == "ge")
                return v >= a;
            return VariableConditionFrom<Var_>{v, op == "in" ? InRange : NotInRange, a, b};
        }

        template <typename Var_>
        auto by_method(const Var_ & v, const std::string & op, Integer a, Integer b) -> Inference
        {
            if (op == "eq")
                return state->infer_equal(v, a);
            if (op == "ne")
                return state->infer_not_equal(v, a);
            if (op == "lt")
                return state->infer_less_than(v, a);
            if (op == "ge")
                return state->infer_greater_than_or_equal(v, a);
            if (op == "in")
                return state->infer_in_range(v, a, b);
            return state->infer_not_in_range(v, a, b);
        }

        auto infer(const T & t, const std::string & op, long long a, long long b, int how) -> void
        {

            Inference r;
            auto ra = real(t, a), rb = real(t, b);
            auto v = id(t, how % 2 == 0);
            switch (how / 2) {
            case 0: r = by_method(v, op, ra, rb); break;
            case 1: r = state->infer(condition(v, op, ra, rb)); break;
            case 2: r = state->infer(Literal{condition(v, op, ra, rb)}); break;
            case 3: r = std::visit([&](const auto & x) { return by_method(x, op, ra, rb); }, v); break;
            default: r = std::visit([&](const auto & x) { return state->infer(condition(x, op, ra, rb)); }, v); break;
            }
            if (r == Inference::Contradiction)
                dead = true;
            out(ev("infer").add("t", json(t)).add("op", op).add("a", a).add("b", b).add("result", name_of(r)));
        }

        auto truth(bool which) -> void
        {
            auto r = which ? state->infer(Literal{TrueLiteral{}}) : state->infer(Literal{FalseLiteral{}});
            out(ev("truth").add("which", which).add("result", name_of(r)).add("test", name_of(which ? state->test_literal(Literal{TrueLiteral{}}) : state->test_literal(Literal{FalseLiteral{}}))));
        }

        auto guess(const T & t, const std::string & op, long long a, long long b) -> void
        {

            std::string thrown = "no";
            try {
                state->guess(condition(id(t), op, real(t, a), real(t, b)));
            }
            catch (const UnexpectedException &) {
                thrown = "unexpected";
                dead = true;
            }
            out(ev("guess").add("t", json(t)).add("op", op).add("a", a).add("b", b).add("thrown", thrown));
        }

        auto extra(const T & t, const std::string & op, long long a, long long b) -> void
        {
            state->add_extra_proof_condition(condition(id(t), op, real(t, a), real(t, b)));
            out(ev("extra").add("t", json(t)).add("op", op).add("a", a).add("b", b));
        }

        auto epoch(bool sub) -> void
        {
            stamps.push_back(state->new_epoch(sub));
            out(ev("epoch").add("sub", sub));
        }

        auto backtrack(std::size_t to) -> void // undo everything from the to-th save point on
        {

            hooks.clear();
            state->backtrack(stamps[to]);
            stamps.erase(stamps.begin() + static_cast<std::ptrdiff_t>(to), stamps.end());
            dead = false;
            out(ev("backtrack").add("to", to + 1).add("hooks", hooks));
        }

        auto hook() -> void
        {
            long long n = ++hook_count;
            state->on_backtrack([this, n]() { hooks.push_back(n); });
            out(ev("hook").add("n", n));
        }

        auto constraint_state(long long x) -> void
        {
            handles.push_back(state->add_constraint_state(std::any{x}));
            out(ev("cstate").add("x", x));
        }
        auto change_constraint_state(std::size_t h, long long x) -> void
        {
            auto & a = std::any_cast<long long &>(state->get_constraint_state(handles[h]));
            auto was = a;
            a = x;
            out(ev("change").add("h", h + 1).add("was", was).add("x", x));
        }

        auto runs(const T & t, const IntervalSet<Integer> & s) const -> Runs
        {
            Runs r;
            for (const auto & [a, b] : s.each_interval())
                r.push_back({rel(t, a), rel(t, b)});
            return r;
        }

        template <typename Source_, typename Var_>
        auto seen(Source_ & s, const T & t, const Var_ & v, Obj & o) -> void
        {
            Vals has;
            for (long long x = -14; x <= 14; ++x)
                if (s.in_domain(v, real(t, x)))
                    has.push_back(x);
            long long size;
            if constexpr (std::is_same_v<Var_, SimpleIntegerVariableID> || std::is_same_v<Var_, IntegerVariableID>)
                size = s.domain_size(v).raw_value;
            else
                size = s.domain_size(IntegerVariableID{v}).raw_value;
            o.add("has", has).add("size", size).add("copy", runs(t, s.copy_of_values(v)));
        }

        auto see(const T & t, int how, int stop) -> void
        {

            auto v = id(t, how % 2 == 0);
            auto o = ev("see").add("t", json(t)).add("stop", stop);
            State & s = *state;
            if (how / 2 % 2)
                std::visit([&](const auto & x) { seen(s, t, x, o); }, IntegerVariableID{v});
            else
                seen(s, t, v, o);
            auto [l, u] = s.bounds(v);
            auto single = s.optional_single_value(v);
            Vals each, mut, fori, form, stopping, stopping_mut;
            for (auto x : s.each_value_immutable(v))
                each.push_back(rel(t, x));
            for (auto x : s.each_value_mutable(v))
                mut.push_back(rel(t, x));
            auto iterate = [&](const auto & w) {
                s.for_each_value_immutable(w, [&](Integer x) { fori.push_back(rel(t, x)); });
                s.for_each_value_mutable(w, [&](Integer x) { form.push_back(rel(t, x)); });
                s.for_each_value_immutable(w, [&](Integer x) -> bool { stopping.push_back(rel(t, x)); return static_cast<int>(stopping.size()) < stop; });
                s.for_each_value_mutable(w, [&](Integer x) -> bool { stopping_mut.push_back(rel(t, x)); return static_cast<int>(stopping_mut.size()) < stop; });
            };
            if (how / 4 % 2)
                std::visit(iterate, v);
            else
                iterate(v);
            Vals value;
            bool threw = false;
            try {
                value.push_back(rel(t, s(v)));
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
                threw = true;
            }
            o.add("lower", rel(t, s.lower_bound(v))).add("upper", rel(t, s.upper_bound(v))).add("bounds", Vals{rel(t, l), rel(t, u)}).add("single", single ? Vals{rel(t, *single)} : Vals{}).add("has_single", s.has_single_value(v)).add("holes", s.domain_has_holes(v)).add("each", each).add("each_mut", mut).add("for", fori).add("for_mut", form).add("stopping", stopping).add("stopping_mut", stopping_mut).add("value", value).add("threw", threw);
            out(o);
        }

        // What a callback sees, now or from a copy kept since.
        auto look(const T & t, int slot) -> void
        {

            auto v = id(t);
            auto now = state->current();
            CurrentState & s = slot == 0 ? now : *kept[slot - 1];
            auto o = ev("look").add("t", json(t)).add("slot", slot);
            seen(s, t, v, o);
            Vals each, reversed, value, many;
            bool threw = false, many_threw = false;
            for (auto x : s.each_value(v))
                each.push_back(rel(t, x));
            for (auto x : s.each_value_reversed(v))
                reversed.push_back(rel(t, x));
            try {
                value.push_back(rel(t, s(v)));
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
                threw = true;
            }
            try {
                std::vector<IntegerVariableID> all{v, v};
                for (auto x : s(all))
                    many.push_back(rel(t, x));
            }
            catch (const VariableDoesNotHaveUniqueValue &) {
                many_threw = true;
            }
            o.add("lower", rel(t, s.lower_bound(v))).add("upper", rel(t, s.upper_bound(v))).add("has_single", s.has_single_value(v)).add("each", each).add("reversed", reversed).add("value", value).add("threw", threw).add("many", many).add("many_threw", many_threw);
            out(o);
        }
        auto keep() -> void
        {
            auto now = state->current();
            kept.push_back(std::make_unique<CurrentState>(now.clone()));
            out(ev("keep"));
        }
        // a copy of a copy, moved
        auto keep_again(int slot) -> void
        {
            auto c = kept[slot - 1]->clone();
            CurrentState m{std::move(c)};
            kept.push_back(std::make_unique<CurrentState>(std::move(m)));
            out(ev("rekeep").add("slot", slot));
        }

        auto test(const T & t, const std::string & op, long long a, long long b, int how) -> void
        {
            auto c = condition(id(t, how % 2 == 0), op, real(t, a), real(t, b));
            auto r = how / 2 ? state->test_literal(Literal{c}) : state->test_literal(c);
            out(ev("test").add("t", json(t)).add("op", op).add("a", a).add("b", b).add("result", name_of(r)));
        }

        auto meets(const T & t, const T & u) -> void
        {
            out(ev("meets").add("t", json(t)).add("u", json(u)).add("same", off(t) == off(u)).add("result", state->domains_intersect(id(t), id(u))));
        }
        auto overlaps(const T & t, const Runs & with, int how) -> void
        {
            IntervalSet<Integer> s;
            for (auto & r : with)
                s.insert_at_end(real(t, r[0]), real(t, r[1]));
            auto v = id(t);
            bool r = how ? std::visit([&](const auto & x) { if constexpr (requires { state->template domain_intersects_with<std::decay_t<decltype(x)>>(x, s); }) return state->domain_intersects_with(IntegerVariableID{x}, s); else return false; }, v) : state->domain_intersects_with(v, s);
            out(ev("overlaps").add("t", json(t)).add("with", with).add("result", r));
        }

        // Remove values while going through them.
        auto sweep(const T & t, long long keep_mod, bool by_for) -> void
        {

            Vals gone, given;
            auto v = id(t);
            auto n = state->domain_size(v).raw_value;
            auto one = [&](Integer x) {
                given.push_back(rel(t, x));
                if (n > 1 && (given.size() % static_cast<std::size_t>(keep_mod)) == 0) {
                    (void)state->infer_not_equal(v, x);
                    gone.push_back(rel(t, x));
                    --n;
                }
            };
            if (by_for)
                state->for_each_value_mutable(v, one);
            else
                for (auto x : state->each_value_mutable(v))
                    one(x);
            out(ev("sweep").add("t", json(t)).add("given", given).add("gone", gone));
        }

        auto guesses() -> void
        {
            std::vector<J> r;
            for (auto g : state->guesses()) {
                auto c = std::get<IntegerVariableCondition>(g);
                Obj o;
                T t{};
                if (auto s = std::get_if<SimpleIntegerVariableID>(&c.var))
                    t = {static_cast<int>(s->index) + 1, 1, 0};
                else if (auto w = std::get_if<ViewOfIntegerVariableID>(&c.var))
                    t = {static_cast<int>(w->actual_variable.index) + 1, w->negate_first ? -1 : 1, w->then_add.raw_value};
                else
                    t = {0, 1, std::get<ConstantIntegerVariableID>(c.var).const_value.raw_value};
                using enum VariableConditionOperator;
                std::string op = c.op == Equal ? "eq" : c.op == NotEqual ? "ne" : c.op == Less ? "lt" : c.op == GreaterEqual ? "ge" : c.op == InRange ? "in" : "notin";
                o.add("t", json(t)).add("op", op).add("a", rel(t, c.value)).add("b", op == "in" || op == "notin" ? rel(t, c.upper_value) : 0);
                r.push_back(J(o));
            }
            out(ev("guesses").add("list", r));
        }

        // ------------------------------------------------------------------

        // every inference, from every domain with these bounds, each undone
        auto every(int width, int how, const T & t)
        {
            for (unsigned bits = 1; bits < (1u << width); ++bits) {
                begin(how % 3 == 0 ? 0 : how % 3 == 1 ? 1'000'000'007ll : -(1ll << 50), {{0, width - 1}});
                for (int x = 0; x < width && ! dead; ++x)
                    if (! (bits & (1u << x)))
                        infer({1, 1, 0}, "ne", x, 0, 0);
                see(t, how, static_cast<int>(bits) % width + 1);
                look(t, 0);
                auto value = [&](int x) { return t.c * x + t.o; };
                for (int x = -1; x <= width; ++x)
                    for (auto & op : ops)
                        for (int y = x - 1; y <= width; ++y) {
                            bool ranged = op == "in" || op == "notin";
                            if (! ranged && y != x)
                                continue;
                            auto a = value(x), b = ranged ? value(y) : 0;
                            if (ranged && x <= y && a > b)
                                std::swap(a, b);
                            if (! ranged || a <= b)
                                test(t, op, a, b, how % 4);
                            epoch(false);
                            infer(t, op, a, b, (how + x + 1) % 10);
                            if (! dead)
                                see({1, 1, 0}, 0, 1);
                            backtrack(stamps.size() - 1);
                        }
                see({1, 1, 0}, 0, 1);
            }
        }

        auto history(Rng & rng, int length) -> void
        {
            Runs bounds;
            auto n = rng.in(1, 4);
            for (int i = 0; i < n; ++i) {
                auto a = rng.in(-4, 4);
                bounds.push_back({a, a + rng.pick(Vals{0, 1, 2, 4, 6})});
            }
            auto b = rng.pick(Vals{0, 0, 0, 5'000'000'000ll, -(1ll << 55)});
            begin(b, bounds);
            auto term = [&]() -> T {
                if (rng.chance(1, 10))
                    return {0, 1, rng.in(-4, 4)};
                T t{static_cast<int>(rng.in(1, n)), 1, 0};
                if (rng.chance(1, 2)) {
                    t.c = rng.chance(1, 2) ? 1 : -1;
                    t.o = rng.in(-4, 4);
                }
                return t;
            };
            auto value = [&](const T & t) -> long long {
                if (t.v == 0)
                    return t.o + rng.in(-1, 1);
                return t.c * rng.in(lo[t.v - 1] - 1, hi[t.v - 1] + 1) + t.o;
            };
            for (int i = 0; i < 3; ++i)
                if (rng.chance(1, 2))
                    constraint_state(rng.in(0, 9));
            for (int step = 0; step < length; ++step) {
                if (dead) {
                    if (stamps.empty())
                        break;
                    backtrack(static_cast<std::size_t>(rng.in(0, static_cast<long long>(stamps.size()) - 1)));
                    continue;
                }
                auto t = term();
                auto op = rng.pick(rng.chance(1, 2) ? std::vector<std::string>{"ne"} : ops);
                auto a = value(t), c = value(t);
                if (op != "in" && op != "notin")
                    c = 0;
                else if (a > c && ! rng.chance(1, 8))
                    std::swap(a, c);
                switch (rng.in(0, 19)) {
                case 0:
                case 1:
                case 2:
                case 3:
                case 4: infer(t, op, a, c, static_cast<int>(rng.in(0, 9))); break;
                case 5:
                case 6:
                    if (op != "notin" && op != "in")
                        guess(t, op, a, c);
                    break;
                case 7:
                case 8:
                    if (stamps.size() < 6)
                        epoch(rng.chance(1, 3));
                    break;
                case 9:
                    if (! stamps.empty())
                        backtrack(static_cast<std::size_t>(rng.chance(2, 3) ? static_cast<long long>(stamps.size()) - 1 : rng.in(0, static_cast<long long>(stamps.size()) - 1)));
                    break;
                case 10:
                    // nothing owned by a state that is copied may be undone through the copy
                    hook();
                    break;
                case 11:
                    if (! handles.empty())
                        change_constraint_state(static_cast<std::size_t>(rng.in(0, static_cast<long long>(handles.size()) - 1)), rng.in(0, 99));
                    break;
                case 12:
                    if (kept.size() < 3)
                        keep();
                    else if (kept.size() < 4)
                        keep_again(static_cast<int>(rng.in(1, 3)));
                    break;
                case 13: look(t, static_cast<int>(rng.in(0, static_cast<long long>(kept.size())))); break;
                case 14:
                    if (op != "in" && op != "notin")
                        c = 0;
                    else if (a > c)
                        break;
                    test(t, op, a, c, static_cast<int>(rng.in(0, 3)));
                    break;
                case 15: {
                    auto u = term();
                    if (off(t) == off(u))
                        meets(t, u);
                    break;
                }
                case 16: {
                    Runs with;
                    long long at = -8;
                    while ((at += rng.in(1, 5)) < 8) {
                        auto to = std::min<long long>(8, at + rng.in(0, 2));
                        with.push_back({at, to});
                        at = to + 1;
                    }
                    overlaps(t, with, static_cast<int>(rng.in(0, 1)));
                    break;
                }
                case 17:
                    if (t.v != 0)
                        sweep(t, rng.in(1, 3), rng.chance(1, 2));
                    break;
                case 18:
                    if (rng.chance(1, 2))
                        guesses();
                    else if (rng.chance(1, 2))
                        extra(t, "ge", a, 0);
                    else
                        truth(rng.chance(1, 2));
                    break;
                default: see(t, static_cast<int>(rng.in(0, 7)), static_cast<int>(rng.in(1, 4))); break;
                }
                if (! dead && rng.chance(1, 2))
                    see(term(), static_cast<int>(rng.in(0, 7)), static_cast<int>(rng.in(1, 4)));
            }
        }
    };
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Shards out(args.out, "state", args.shards);
    Progress progress(args.out);
    Session s{out, progress};
    int how = 0;
    int width = args.thorough ? 5 : 4;
    for (auto & t : std::vector<T>{{1, 1, 0}, {1, 1, 3}, {1, -1, 0}, {1, -1, 2}})
        for (int i = 0; i < (args.thorough ? 5 : 2); ++i)
            s.every(width, how++ * 3 + (i * 7) % 10, t);
    Rng rng(args.seed);
    long n = args.n >= 0 ? args.n : args.thorough ? 4000 : 500;
    for (long i = 0; i < n; ++i)
        s.history(rng, static_cast<int>(rng.in(20, 120)));
    return 0;
}
