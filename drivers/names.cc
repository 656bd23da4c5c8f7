// Records models being built - names, identities, objectives - for NamesTrace.tla.
#include "common.hh"
#include <gcs/gcs.hh>
#include <gcs/innards/propagators.hh>
#include <gcs/innards/s_expr.hh>
#include <gcs/innards/state.hh>

#include <filesystem>
#include <format>
#include <functional>
#include <optional>

using namespace verif;
using namespace gcs;
using std::optional;
using std::string;
using std::vector;

namespace
{
    // a constraint that accepts everything, and notes who it is when installed
    class Probe : public Constraint
    {
        vector<string> & _seen;

    protected:
        auto prepare(innards::Propagators &, innards::State &, innards::ProofModel * const) -> bool override
        {
            _seen.push_back(as_string(constraint_id()));
            return true;
        }

    public:
        explicit Probe(vector<string> & s) : _seen(s)
        {
        }
        auto constraint_type() const -> string override
        {
            return "probe";
        }
        auto clone() const -> std::unique_ptr<Constraint> override
        {
            return std::make_unique<Probe>(_seen);
        }
        auto s_expr(const innards::ProofModel * const) const -> innards::SExpr override
        {
            return innards::SExpr::list({innards::SExpr::atom(as_string(constraint_id())), innards::SExpr::atom("probe")});
        }
    };

    auto attempt(const std::function<void()> & f) -> string
    {
        try {
            f();
            return "ok";
        }
        catch (const NamingError &) {
            return "naming";
        }
        catch (const InvalidProblemDefinitionException &) {
            return "invalid";
        }
    }

    auto name_json(const optional<string> & n) -> J
    {
        return n ? arr({codes(*n)}) : J{vector<int>{}};
    }

    struct Session
    {
        Shards & out;
        Rng & rng;
        const Args & args;
        vector<string> seen;
        Problem p;
        vector<SimpleIntegerVariableID> handles;
        vector<string> pool;

        Session(Shards & o, Rng & r, const Args & a) : out(o), rng(r), args(a)
        {
            out.next();
            out(ev("begin"));
        }

        auto index(const SimpleIntegerVariableID & v) -> int
        {
            auto & all = p.all_normal_variables();
            for (std::size_t i = 0; i < all.size(); ++i)
                if (all[i] == IntegerVariableID{v})
                    return static_cast<int>(i) + 1;
            return 0;
        }

        auto random_name() -> string
        {
            if (! pool.empty() && rng.chance(1, 4)) {
                auto n = rng.pick(pool);
                switch (rng.in(0, 5)) {
                case 0: return n + "[" + std::to_string(rng.in(0, 3)) + "]";
                case 1: return n + "_";
                case 2: return "_" + n;
                default: return n;
                }
            }
            static const string good = "abzAZ019_-[]{}";
            string s;
            if (rng.chance(1, 4))
                s = "_" + (rng.chance(1, 2) ? std::to_string(rng.in(0, 9)) : string(static_cast<std::size_t>(rng.in(0, 2)), '_'));
            s += rng.pick(vector<string>{"x", "y", "z", "Q", "a1", "", "1", "x[1]", "x{a}"});
            for (int i = 0, n = static_cast<int>(rng.in(0, 4)); i < n; ++i)
                s += rng.chance(1, 20) ? static_cast<char>(rng.in(0, 255)) : rng.pick(good);
            return s;
        }
        auto maybe_name() -> optional<string>
        {
            if (rng.chance(1, 3))
                return std::nullopt;
            return random_name();
        }

        auto var(const optional<string> & name, long long lo, long long hi) -> void
        {
            int pos = 0;
            auto r = attempt([&]() {
                auto v = p.create_integer_variable(Integer{lo}, Integer{hi}, name);
                handles.push_back(v);
                pos = index(v);
            });
            if (r == "ok" && name)
                pool.push_back(*name);
            out(ev("var").add("name", name_json(name)).add("lo", lo).add("hi", hi).add("r", r).add("pos", pos));
        }
        auto var_dom() -> void
        {
            auto name = maybe_name();
            vector<long long> vals;
            for (int i = 0, n = static_cast<int>(rng.in(0, 5)); i < n; ++i)
                vals.push_back(rng.in(-5, 9));
            vector<Integer> iv;
            for (auto x : vals)
                iv.push_back(Integer{x});
            int pos = 0;
            auto r = attempt([&]() {
                auto v = p.create_integer_variable(iv, name);
                handles.push_back(v);
                pos = index(v);
            });
            if (r == "ok" && name)
                pool.push_back(*name);
            out(ev("vardom").add("name", name_json(name)).add("vals", vals).add("r", r).add("pos", pos));
        }
        auto vec() -> void
        {
            auto name = maybe_name();
            bool array = rng.chance(1, 2);
            auto n = array ? (rng.chance(1, 2) ? 3 : 12) : rng.in(0, 12);
            auto lo = rng.in(-4, 4), hi = lo + rng.in(rng.chance(1, 10) ? -1 : 0, 3);
            vector<int> pos;
            auto before = p.all_normal_variables().size();
            auto r = attempt([&]() {
                auto note = [&](const auto & vs) {
                    for (auto & v : vs)
                        pos.push_back(index(std::visit(
                            [](const auto & x) -> SimpleIntegerVariableID {
                                if constexpr (std::is_same_v<std::remove_cvref_t<decltype(x)>, SimpleIntegerVariableID>)
                                    return x;
                                else
                                    throw 1;
                            },
                            IntegerVariableID{v})));
                };
                if (! array)
                    note(p.create_integer_variable_vector(static_cast<std::size_t>(n), Integer{lo}, Integer{hi}, name));
                else if (n == 3)
                    note(p.create_n_integer_variables<3>(Integer{lo}, Integer{hi}, name));
                else
                    note(p.create_n_integer_variables<12>(Integer{lo}, Integer{hi}, name));
            });
            for (auto i = before; i < p.all_normal_variables().size(); ++i)
                handles.push_back(std::get<SimpleIntegerVariableID>(p.all_normal_variables()[i]));
            if (name && n > 0 && r == "ok")
                pool.push_back(*name + "[0]");
            out(ev("vec").add("name", name_json(name)).add("n", n).add("lo", lo).add("hi", hi).add("r", r).add("pos", pos));
        }

        // Calls with a constraint of a random kind and its type; the constraint
        // may have been given an identity already, which counts for nothing.
        auto with_constraint(const std::function<void(const Constraint &)> & f) -> string
        {
            auto call = [&](auto c) {
                if (rng.chance(1, 4))
                    c.set_constraint_id(NamedConstraint{"elsewhere"});
                f(c);
            };
            auto x = handles.empty() ? IntegerVariableID{0_c} : IntegerVariableID{rng.pick(handles)};
            switch (handles.empty() ? 0 : rng.in(0, 3)) {
            case 0: call(Probe{seen}); return "probe";
            case 1: call(Probe{seen}); return "probe";
            case 2: call(In{x, vector<Integer>{-5_i, -4_i, -3_i, -2_i, -1_i, 0_i, 1_i, 2_i, 3_i, 4_i, 5_i, 6_i, 7_i, 8_i, 9_i}}); return "in";
            default: call(AllDifferent{vector<IntegerVariableID>{x}}); return "all_different";
            }
        }
        auto post() -> void
        {
            string r, type;
            if (! handles.empty() && rng.chance(1, 3)) {
                auto x = rng.pick(handles);
                bool eq = rng.chance(1, 2);
                type = eq ? "lin_equals" : "lin_less_equal";
                r = attempt([&]() {
                    if (eq)
                        p.post(WeightedSum{} + 1_i * x + -1_i * x == 0_i);
                    else
                        p.post(WeightedSum{} + 1_i * x <= 100_i);
                });
            }
            else
                type = with_constraint([&](const Constraint & c) { r = attempt([&]() { p.post(c); }); });
            out(ev("post").add("type", type).add("r", r));
        }
        auto post_named() -> void
        {
            auto name = random_name();
            string r, type;
            if (! handles.empty() && rng.chance(1, 3)) {
                auto x = rng.pick(handles);
                bool eq = rng.chance(1, 2);
                type = eq ? "lin_equals" : "lin_less_equal";
                r = attempt([&]() {
                    if (eq)
                        p.post_named(WeightedSum{} + 1_i * x + -1_i * x == 0_i, name);
                    else
                        p.post_named(WeightedSum{} + 1_i * x <= 100_i, name);
                });
            }
            else
                type = with_constraint([&](const Constraint & c) { r = attempt([&]() { p.post_named(c, name); }); });
            if (r == "ok")
                pool.push_back(name);
            out(ev("postnamed").add("name", codes(name)).add("type", type).add("r", r));
        }
        auto post_auto(long n) -> void
        {
            string r;
            auto type = with_constraint([&](const Constraint & c) { r = attempt([&]() { p.post_autonumbered(c, static_cast<unsigned long long>(n)); }); });
            out(ev("postauto").add("n", n).add("type", type).add("r", r));
        }
        auto objective() -> void
        {
            bool max = rng.chance(1, 2);
            IntegerVariableID t = 0_c;
            long long v = 0, c = 1, o = rng.in(-3, 3);
            if (handles.empty() || rng.chance(1, 6))
                t = ConstantIntegerVariableID{Integer{o}};
            else {
                auto i = rng.in(0, static_cast<long long>(handles.size()) - 1);
                v = i + 1;
                c = rng.chance(1, 2) ? 1 : -1;
                t = handles[static_cast<std::size_t>(i)];
                if (c < 0)
                    t = -t;
                t = t + Integer{o};
            }
            if (max)
                p.maximise(t);
            else
                p.minimise(t);
            out(ev("objective").add("max", max).add("v", v).add("c", c).add("o", o));
        }

        auto read() -> void
        {
            vector<J> vars, cons, oftype;
            vector<int> hs, normal;
            auto position = [&](const IntegerVariableID & v) {
                for (std::size_t i = 0; i < handles.size(); ++i)
                    if (IntegerVariableID{handles[i]} == v)
                        return static_cast<int>(i) + 1;
                return 0;
            };
            for (const auto & [v, lo, hi, name] : p.each_variable_with_bounds_and_name()) {
                vars.push_back(arr({codes(name), lo.raw_value, hi.raw_value}));
                hs.push_back(position(v));
            }
            for (auto & v : p.all_normal_variables())
                normal.push_back(position(v));
            for (const auto & c : p.each_constraint())
                cons.push_back(arr({codes(as_string(c.constraint_id())), std::holds_alternative<NamedConstraint>(c.constraint_id()), c.constraint_type()}));
            for (const auto & c : p.each_constraint_of_type<Probe>())
                oftype.push_back(codes(as_string(c.constraint_id())));
            J obj{vector<int>{}};
            if (auto o = p.optional_minimise_variable()) {
                if (auto x = std::get_if<SimpleIntegerVariableID>(&*o))
                    obj = arr({position(*x), 1, 0});
                else if (auto x = std::get_if<ViewOfIntegerVariableID>(&*o))
                    obj = arr({position(x->actual_variable), x->negate_first ? -1 : 1, x->then_add.raw_value});
                else
                    obj = arr({0, std::get<ConstantIntegerVariableID>(*o).const_value.raw_value});
            }
            // a constant has no sign of its own
            if (obj.s.starts_with("[0,"))
                obj = J{J::Raw{"[0]"}};
            out(ev("read").add("vars", vars).add("handles", hs).add("normal", normal).add("cons", cons).add("oftype", oftype).add("obj", obj));
        }

        auto search() -> void
        {
            seen.clear();
            auto first = [&](const CurrentState &) { return false; };
            // proofs of constant objectives are not implemented
            auto o = p.optional_minimise_variable();
            if (rng.chance(1, 2) || (o && gcs::is_constant_variable(*o))) {
                (void) solve(p, first);
                installed();
            }
            else {
                auto base = args.out + "/names_scratch";
                (void) solve(p, first, ProofOptions{base});
                installed();
                std::ifstream f(base + ".scp");
                std::stringstream t;
                t << f.rdbuf();
                out(ev("written").add("text", codes(t.str())));
                for (auto x : {".scp", ".opb", ".pbp", ".varmap"})
                    std::filesystem::remove(base + x);
            }
        }
        auto installed() -> void
        {
            vector<J> ids;
            for (auto & s : seen)
                ids.push_back(codes(s));
            out(ev("installed").add("ids", ids));
        }
    };

    auto identities(Shards & out, Rng & rng) -> void
    {
        auto make = [&](string & store) -> std::pair<ConstraintID, J> {
            switch (rng.in(0, 3)) {
            case 0: return {CurrentlyUnnamedConstraint{}, arr({"unnamed", codes("")})};
            case 1: {
                auto n = static_cast<unsigned long long>(rng.chance(1, 6) ? rng.in(0, 1ll << 62) : rng.in(0, 4));
                return {NumberedConstraint{n}, arr({"number", codes(std::to_string(n))})};
            }
            default:
                store = rng.pick(vector<string>{"a", "b", "_1", "1", "unnamed", "ab", ""});
                return {NamedConstraint{store}, arr({"name", codes(store)})};
            }
        };
        string s1, s2;
        auto [a, ja] = make(s1);
        auto [b, jb] = make(s2);
        out(ev("same").add("a", ja).add("b", jb).add("r", a == b));
        auto copy = a;
        out(ev("text").add("a", ja).add("r", codes(as_string(copy))).add("f", codes(std::format("{}", copy))));
    }
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Shards out(args.out, "names", args.shards);
    Progress progress(args.out);
    {
        // every byte, in five contexts
        Rng rng(args.seed);
        for (int c = 0; c < 256; ++c) {
            Session s(out, rng, args);
            auto x = string(1, static_cast<char>(c));
            for (auto & n : vector<string>{x, "a" + x, x + "a", "_" + x, "a" + x + "b", "a[" + x + "]"}) {
                progress("name of byte " + std::to_string(c));
                s.var(n, 0, 1);
            }
            s.read();
        }
        // short texts over the interesting characters
        const string alphabet = "a_0[]{}-";
        vector<string> words{""};
        for (std::size_t from = 0, len = 1; len <= (args.thorough ? 5u : 4u); ++len) {
            auto to = words.size();
            for (; from < to; ++from)
                for (auto c : alphabet)
                    words.push_back(words[from] + c);
        }
        for (std::size_t i = 0; i < words.size();) {
            Session s(out, rng, args);
            for (int j = 0; j < 60 && i < words.size(); ++j)
                s.var(words[i++], 0, 1);
        }
        for (auto n : {30, 300}) {
            Session s(out, rng, args);
            progress("long names");
            s.var(string(static_cast<std::size_t>(n), 'a'), 0, 1);
            s.var(string(static_cast<std::size_t>(n), '_') + "a", 0, 1);
            s.var("a" + string(static_cast<std::size_t>(n), '[') + string(static_cast<std::size_t>(n), ']'), 0, 1);
            s.var("a" + string(static_cast<std::size_t>(n), '[') + string(static_cast<std::size_t>(n) - 1, ']'), 0, 1);
            s.var("a" + string(static_cast<std::size_t>(n), '{') + string(static_cast<std::size_t>(n) + 1, '}'), 0, 1);
        }
    }
    for (int session = 0, sessions = args.thorough ? 3000 : 400; session < sessions; ++session) {
        Rng rng(args.seed * 1000003 + session);
        progress("session " + std::to_string(session));
        Session s(out, rng, args);
        long cons = 0;
        for (int i = 0, n = static_cast<int>(rng.in(3, 25)); i < n; ++i) {
            switch (rng.in(0, 9)) {
            case 0:
            case 1: {
                auto lo = rng.in(-5, 5);
                s.var(s.maybe_name(), lo, lo + rng.in(rng.chance(1, 8) ? -2 : 0, 4));
                break;
            }
            case 2: s.var_dom(); break;
            case 3: s.vec(); break;
            case 4: s.post(); break;
            case 5:
            case 6: s.post_named(); break;
            case 7: {
                // mostly the number that is due
                long due = 1;
                for (const auto & c : s.p.each_constraint())
                    if (std::holds_alternative<NumberedConstraint>(c.constraint_id()))
                        ++due;
                s.post_auto(rng.chance(2, 3) ? due : rng.in(0, due + 2));
                break;
            }
            case 8: s.objective(); break;
            default: identities(out, rng);
            }
            ++cons;
            if (rng.chance(1, 6))
                s.read();
        }
        s.read();
        for (int i = static_cast<int>(rng.in(0, 2)); i > 0; --i)
            s.search();
        s.read();
    }
    return 0;
}
