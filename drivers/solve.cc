// Solves random small models with the real solver and records what it
// reported, one model per line.

#include "brancher.hh"
#include "model.hh"

using namespace verif;
using namespace gcs;

namespace
{
    auto why(const std::exception_ptr & e) -> string
    {
        try {
            std::rethrow_exception(e);
        }
        catch (const InvalidProblemDefinitionException &) {
            return "invalid";
        }
        catch (const UnimplementedException &) {
            return "unimplemented";
        }
        catch (const std::exception & x) {
            return string{"other: "} + x.what();
        }
    }

    auto enumerate(const Args & args) -> void
    {
        Progress progress(args.out);
        Shards out(args.out, "enum", args.shards);
        auto kinds = all_kinds();
        long rounds = args.n > 0 ? args.n : args.thorough ? 1500 : 150;
        for (long round = 0; round < rounds; ++round)
            for (std::size_t at = 0; at < kinds.size(); ++at) {
                Rng rng(args.seed * 1000003 + round * 1009 + at);
                if (! args.mode.empty() && kinds[at] != args.mode)
                    continue;
                vector<string> ks{kinds[at]};
                if (rng.chance(1, 3))
                    ks.push_back(rng.pick(kinds));
                auto m = make_model(rng, ks, args.thorough ? 600 : 240);
                progress(m.describe());
                Obj o = ev("model");
                m.json(o);
                vector<vector<long long>> sols;
                string thrown = "no";
                bool completed = false;
                try {
                    Problem p;
                    auto ids = m.create(p);
                    Sink sink{[&](const Constraint & c) { p.post(c); }};
                    for (auto & c : m.cons)
                        c.post(sink, ids);
                    SolveCallbacks cb;
                    cb.solution = [&](const CurrentState & s) {
                        vector<long long> a;
                        for (auto & v : ids)
                            a.push_back(s(v).raw_value);
                        sols.push_back(a);
                        return true;
                    };
                    if (rng.chance(2, 3))
                        cb.branch = brancher(rng, p, ids);
                    cb.completed = [&] { completed = true; };
                    solve_with(p, std::move(cb));
                }
                catch (...) {
                    thrown = why(std::current_exception());
                }
                o.add("sols", sols).add("completed", completed).add("thrown", thrown);
                vector<J> vs;
                for (auto & c : m.cons)
                    vs.push_back(c.variant);
                o.add("variants", vs);
                out(o);
                out.next();
            }
    }
}

auto main(int argc, char ** argv) -> int
{
    Args args(argc, argv);
    enumerate(args);
    return 0;
}
