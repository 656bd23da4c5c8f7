// Records what optional tasks come to, for PresenceTrace.tla: the rule itself,
// the solutions of scheduling models, and the models written for a proof.
#include "common.hh"
#include "model.hh"
#include <gcs/constraints/innards/task_presence.hh>
#include <gcs/gcs.hh>

#include <filesystem>

using namespace verif;
using namespace gcs;
using std::optional;
using std::string;
using std::vector;

namespace
{
    // [0, k] a constant, [i, c, o] a variable or view, [] nothing
    auto handle(const optional<IntegerVariableID> & v) -> J
    {
        if (! v)
            return J{vector<int>{}};
        if (auto x = std::get_if<SimpleIntegerVariableID>(&*v))
            return arr({static_cast<long long>(x->index) + 1, 1, big(0)});
        if (auto x = std::get_if<ViewOfIntegerVariableID>(&*v))
            return arr({static_cast<long long>(x->actual_variable.index) + 1, x->negate_first ? -1 : 1, big(x->then_add.raw_value)});
        return arr({0, 1, big(std::get<ConstantIntegerVariableID>(*v).const_value.raw_value)});
    }

    auto rule(Shards & out, const optional<IntegerVariableID> & v, const string & name) -> void
    {
        auto o = ev("rule").add("v", handle(v)).add("name", codes(name));
        try {
            auto r = innards::task_presence(v, name);
            o.add("thrown", false).add("literal", handle(r.literal)).add("never", r.never_present);
        }
        catch (const InvalidProblemDefinitionException & e) {
            o.add("thrown", true).add("what", codes(e.what()));
        }
        out(o);
    }

    auto rules(const Args & args) -> void
    {
        Shards out(args.out, "rule", 1);
        Rng rng(args.seed);
        vector<long long> values{0, 1, -1, 2, 3, -2, 10, 100, std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min(),
            std::numeric_limits<long long>::max() - 1, std::numeric_limits<long long>::min() + 1, 1ll << 32, (1ll << 32) + 1, -(1ll << 32), 1ll << 8, 257};
        for (auto n : {"Cumulative", "Disjunctive", "", "with spaces: and colon", "q"}) {
            rule(out, std::nullopt, n);
            for (auto k : values)
                rule(out, constant_variable(Integer{k}), n);
        }
        for (int i = 0; i < 400; ++i) {
            IntegerVariableID v = SimpleIntegerVariableID{static_cast<unsigned long long>(rng.in(0, 40))};
            if (rng.chance(1, 3))
                v = -v;
            if (rng.chance(1, 2))
                v = v + Integer{rng.in(-3, 3)};
            if (rng.chance(1, 4))
                v = constant_variable(Integer{rng.in(-4, 5)});
            rule(out, v, rng.pick(vector<string>{"Cumulative", "Disjunctive", "x"}));
        }
    }

    auto schedules(const Args & args) -> void
    {
        Progress progress(args.out);
        Shards out(args.out, "enum", args.shards);
        long rounds = args.n > 0 ? args.n : args.thorough ? 40000 : 2400;
        for (long round = 0; round < rounds; ++round) {
            Rng rng(args.seed * 1000003 + round * 7);
            vector<string> ks{round % 2 ? "cumulative" : "disjunctive"};
            auto m = make_model(rng, ks, args.thorough ? 600 : 240, false, true);
            progress(m.describe());
            Obj o = ev("model");
            m.json(o);
            vector<vector<long long>> sols;
            string thrown = "no";
            bool completed = false;
            try {
                Problem p;
                auto ids = m.create(p);
                Sink sink{[&](const Constraint & c) { p.post(c); }};
                for (auto & c : m.cons)
                    c.post(sink, ids);
                SolveCallbacks cb;
                cb.solution = [&](const CurrentState & s) {
                    vector<long long> a;
                    for (auto & v : ids)
                        a.push_back(s(v).raw_value);
                    sols.push_back(a);
                    return true;
                };
                if (rng.chance(2, 3))
                    cb.branch = branch_with(variable_order::random(ids, static_cast<std::uint_fast32_t>(round)), rng.chance(1, 2) ? value_order::smallest_in() : value_order::largest_out());
                cb.completed = [&] { completed = true; };
                solve_with(p, std::move(cb));
            }
            catch (const InvalidProblemDefinitionException &) {
                thrown = "invalid";
            }
            o.add("sols", sols).add("completed", completed).add("thrown", thrown);
            out(o);
            out.next();
        }
    }

    // the constraints of a model file: comments, which name the form the
    // constraint was posted in, are no part of what it says
    auto slurp(const string & name) -> string
    {
        std::ifstream f(name);
        string t, line;
        while (std::getline(f, line))
            if (! line.starts_with("*"))
                t += line + "\n";
        return t;
    }

    // the model written when every presence is the constant one, and when there
    // are no presences at all
    auto models(const Args & args) -> void
    {
        Progress progress(args.out);
        Shards out(args.out, "opb", 1);
        long rounds = args.thorough ? 2000 : 200;
        for (long round = 0; round < rounds; ++round) {
            Rng rng(args.seed * 1000033 + round * 11);
            bool disjunctive = rng.chance(1, 2);
            auto n = static_cast<std::size_t>(rng.in(1, 4));
            vector<std::pair<long long, long long>> s, l, h;
            std::pair<long long, long long> cap{rng.in(1, 3), 0};
            auto domain = [&](long long lo, long long hi) {
                auto a = rng.in(lo, hi);
                return std::pair{a, rng.chance(1, 2) ? a : rng.in(a, hi)};
            };
            cap.second = rng.in(cap.first, 4);
            for (std::size_t i = 0; i < n; ++i) {
                s.push_back(domain(0, 5));
                l.push_back(domain(rng.chance(1, 4) ? 0 : 1, 3));
                h.push_back(domain(rng.chance(1, 6) ? 0 : 1, 3));
            }
            bool constants = rng.chance(1, 2);
            progress("model " + std::to_string(round));
            auto write = [&](bool presences) {
                Problem p;
                auto make = [&](const std::pair<long long, long long> & d) -> IntegerVariableID {
                    if (constants && d.first == d.second)
                        return constant_variable(Integer{d.first});
                    return p.create_integer_variable(Integer{d.first}, Integer{d.second});
                };
                vector<IntegerVariableID> ss, ls, hs, ones(n, constant_variable(1_i));
                for (std::size_t i = 0; i < n; ++i) {
                    ss.push_back(make(s[i]));
                    ls.push_back(make(l[i]));
                    hs.push_back(make(h[i]));
                }
                auto c = make(cap);
                if (disjunctive)
                    p.post(presences ? Disjunctive{ss, ls, ones} : Disjunctive{ss, ls});
                else
                    p.post(presences ? Cumulative{ss, ls, hs, ones, c} : Cumulative{ss, ls, hs, c});
                auto base = args.out + "/presence_scratch";
                (void) solve(p, [](const CurrentState &) { return false; }, ProofOptions{base});
                auto text = slurp(base + ".opb");
                for (auto x : {".scp", ".opb", ".pbp", ".varmap"})
                    std::filesystem::remove(base + x);
                return text;
            };
            out(ev("written").add("without", write(false)).add("ones", write(true)));
        }
    }
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    rules(args);
    schedules(args);
    models(args);
    return 0;
}
