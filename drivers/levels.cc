// Posts one constraint over distinct variables and records the domains that
// propagation leaves at every node of a random search, for LevelTrace.tla.

#include "brancher.hh"
#include "model.hh"

using namespace verif;
using namespace gcs;

auto main(int argc, char ** argv) -> int
{
    Args args(argc, argv);
    Progress progress(args.out);
    Shards out(args.out, "level", args.shards);
    auto kinds = all_kinds();
    long rounds = args.n > 0 ? args.n : args.thorough ? 1500 : 60;
    for (long round = 0; round < rounds; ++round)
        for (std::size_t at = 0; at < kinds.size(); ++at) {
            Rng rng(args.seed * 1000003 + round * 1009 + at);
            if (! args.mode.empty() && kinds[at] != args.mode)
                continue;
            Maker maker(rng, args.thorough ? 500 : 250);
            maker.reuse = 1000000;
            maker.own_conditions = false;
            Con c = generators().at(kinds[at])(maker);
            auto m = maker.m;
            if (m.shared || m.doms.empty())
                continue;
            m.cons.push_back(c);
            progress(m.describe());
            Obj o = ev("level");
            m.json(o);
            o.add("variant", c.variant);
            vector<J> nodes;
            std::set<string> seen;
            bool thrown = false;
            try {
                Problem p;
                auto ids = m.create(p);
                Sink sink{[&](const Constraint & c) { p.post(c); }};
                c.post(sink, ids);
                SolveCallbacks cb;
                int limit = 14;
                cb.solution = [&](const CurrentState &) { return true; };
                cb.trace = [&](const CurrentState & s) {
                    vector<J> ds;
                    for (auto & v : ids) {
                        vector<long long> d;
                        for (auto x : s.each_value(v))
                            d.push_back(x.raw_value);
                        ds.push_back(J{d});
                    }
                    J n{ds};
                    if (seen.insert(Obj{}.add("n", n).str()).second)
                        nodes.push_back(n);
                    return --limit > 0;
                };
                cb.branch = brancher(rng, p, ids);
                solve_with(p, std::move(cb));
            }
            catch (const InvalidProblemDefinitionException &) {
                thrown = true;
            }
            if (thrown || nodes.empty())
                continue;
            o.add("nodes", J{nodes});
            out(o);
            out.next();
        }
}
