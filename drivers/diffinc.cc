// Drives the incremental difference-logic algorithms the way their caller
// does, through bound changes, activations and backtracking.
#include "common.hh"
#include <gcs/constraints/difference/difference_incremental.hh>
#include <gcs/exception.hh>
using namespace verif;
using gcs::Integer;
using namespace gcs::innards;
using std::size_t;
using std::vector;

namespace
{
    auto ints(const vector<Integer> & v) -> J
    {
        vector<long long> r;
        for (auto & i : v)
            r.push_back(i.raw_value);
        return J{r};
    }
    auto flags(const vector<char> & v) -> J
    {
        vector<int> r;
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i])
                r.push_back(static_cast<int>(i));
        return J{r};
    }
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Progress progress(args.out);
    Shards out(args.out, "diffinc", args.shards);

    int sessions = args.thorough ? 2500 : 400;
    for (int session = 0; session < sessions; ++session) {
        progress("session " + std::to_string(session));
        out.next();
        auto n = static_cast<size_t>(rng.chance(1, 12) ? 1 : rng.in(2, rng.chance(1, 4) ? 7 : 4));
        auto m = static_cast<size_t>(rng.in(0, static_cast<long long>(rng.chance(1, 3) ? 3 * n : 2 * n)));
        long long scale = rng.chance(1, 10) ? 1000000 : 1;
        auto wlo = rng.in(-4, 0), whi = rng.in(0, 6);
        // usually consistent with some hidden assignment, so that activations succeed
        vector<long long> hidden(n);
        for (auto & h : hidden)
            h = rng.in(-5, 5);
        bool planted = rng.chance(3, 4);
        vector<DifferenceArc> arcs;
        vector<J> arcs_j;
        for (size_t e = 0; e < m; ++e) {
            auto u = static_cast<size_t>(rng.in(0, static_cast<long long>(n) - 1)), v = static_cast<size_t>(rng.in(0, static_cast<long long>(n) - 1));
            if (u == v && rng.chance(4, 5))
                v = (v + 1) % n;
            long long d = planted ? hidden[u] - hidden[v] + (rng.chance(1, 3) ? 0 : rng.in(0, 4)) : rng.in(wlo, whi);
            if (planted && rng.chance(1, 12))
                d -= rng.in(1, 5);
            arcs.push_back(DifferenceArc{u, v, Integer{d * scale}, e});
            arcs_j.push_back(arr({J{static_cast<int>(u)}, J{static_cast<int>(v)}, J{d * scale}}));
        }
        bool all_active = rng.chance(1, 6);
        vector<char> active; // empty means all
        vector<int> active_j;
        if (! all_active) {
            active.assign(m, 0);
            for (auto & a : active)
                a = rng.chance(2, 5);
            if (m == 0)
                all_active = true;
        }
        for (size_t e = 0; e < m; ++e)
            if (difference_arc_is_active(active, e))
                active_j.push_back(static_cast<int>(e));
        vector<Integer> lb, ub, glb, gub;
        for (size_t v = 0; v < n; ++v) {
            lb.emplace_back(rng.in(-6, 4) * scale);
            ub.emplace_back(lb.back().raw_value + rng.in(0, 30) * scale);
        }
        out(ev("begin").add("n", static_cast<int>(n)).add("arcs", arcs_j).add("active", active_j).add("lb", ints(lb)).add("ub", ints(ub)));

        auto by_tail = build_difference_adjacency(n, arcs, true);
        auto by_head = build_difference_adjacency(n, arcs, false);
        for (auto [adj, tail] : {std::pair{&by_tail, true}, std::pair{&by_head, false}}) {
            vector<int> st(adj->start.begin(), adj->start.end()), ar(adj->arcs.begin(), adj->arcs.end());
            out(ev("adjacency").add("tail", tail).add("start", st).add("arcs", ar));
        }

        auto examine = [&](const vector<Integer> & pi) {
            auto bad = difference_invalid_potential_arc(arcs, active, pi);
            out(ev("examine").add("pi", ints(pi)).add("arc", bad ? static_cast<int>(*bad) : -1));
        };
        for (int i = 0; i < 3; ++i) {
            vector<Integer> pi;
            for (size_t v = 0; v < n; ++v)
                pi.emplace_back(planted && rng.chance(1, 2) ? (hidden[v] * -1 + 0) * scale : rng.in(-3, 3) * scale);
            examine(pi);
        }

        auto initial = difference_initial_potential(n, arcs, active);
        auto o = ev("initial").add("ok", initial.has_value());
        if (initial)
            o.add("pi", ints(*initial));
        out(o);
        if (! initial)
            continue;
        auto pi = *initial;
        examine(pi);

        DifferencePotentialWorkspace pw;
        DifferenceBoundsWorkspace bw;
        vector<char> flb(n, 1), fub(n, 1);
        glb = lb;
        gub = ub;
        auto neg = [](vector<Integer> v) {
            for (auto & x : v)
                x = -x;
            return v;
        };
        auto settled = [&]() {
            vector<J> r;
            for (auto v : bw.settle_order)
                r.push_back(arr({J{static_cast<int>(v)}, J{bw.settled_bound[v].raw_value}, J{bw.has_predecessor[v] ? static_cast<int>(bw.predecessor[v]) : -1}}));
            return J{r};
        };
        auto run = [&]() {
            auto e = ev("run").add("flb", flags(flb)).add("fub", flags(fub));
            difference_incremental_bounds(n, arcs, by_tail, true, active, pi, lb, glb, flb, bw);
            e.add("lower", settled());
            for (auto v : bw.settle_order) {
                glb[v] = std::max(glb[v], bw.settled_bound[v]);
                lb[v] = std::max(lb[v], bw.settled_bound[v]);
            }
            auto gneg = neg(gub), uneg = neg(ub);
            difference_incremental_bounds(n, arcs, by_head, false, active, neg(pi), uneg, gneg, fub, bw);
            e.add("upper", settled());
            for (auto v : bw.settle_order) {
                gub[v] = std::min(gub[v], -bw.settled_bound[v]);
                ub[v] = std::min(ub[v], -bw.settled_bound[v]);
            }
            out(e);
            flb.assign(n, 0);
            fub.assign(n, 0);
        };
        run();

        struct Saved
        {
            vector<char> active;
            vector<Integer> lb, ub, glb, gub;
        };
        vector<Saved> stack;
        // arcs come and go, some additions refuted, with nothing propagated in
        // between: the potential and the repair scratch are never trailed
        if (! all_active && rng.chance(1, 2)) {
            for (int i = 0, k = static_cast<int>(rng.in(4, 24)); i < k; ++i) {
                auto e = static_cast<size_t>(rng.in(0, static_cast<long long>(m) - 1));
                if (active[e]) {
                    active[e] = 0;
                    out(ev("deactivate").add("arc", static_cast<int>(e)));
                }
                else {
                    active[e] = 1;
                    bool ok = difference_repair_potential(n, arcs, by_tail, active, pi, e, pw);
                    out(ev("activate").add("arc", static_cast<int>(e)).add("ok", ok).add("pi", ints(pi)));
                    if (! ok)
                        active[e] = 0;
                    else {
                        flb[arcs[e].from] = 1;
                        fub[arcs[e].to] = 1;
                    }
                }
            }
            run();
        }
        int steps = static_cast<int>(rng.in(3, args.thorough ? 30 : 16));
        for (int step = 0; step < steps; ++step) {
            auto what = rng.in(0, 9);
            bool failed = false;
            if (what == 0 && stack.size() < 6) {
                stack.push_back({active, lb, ub, glb, gub});
                out(ev("push"));
                continue;
            }
            else if (what == 1 && ! stack.empty()) {
                auto s = stack.back();
                stack.pop_back();
                active = s.active, lb = s.lb, ub = s.ub, glb = s.glb, gub = s.gub;
                out(ev("pop"));
                if (rng.chance(1, 2))
                    run();
                continue;
            }
            if (! all_active && what <= 5) {
                auto k = rng.in(1, 2);
                for (int i = 0; i < k && ! failed; ++i) {
                    vector<size_t> candidates;
                    for (size_t e = 0; e < m; ++e)
                        if (! active[e])
                            candidates.push_back(e);
                    if (candidates.empty())
                        break;
                    auto e = rng.pick(candidates);
                    active[e] = 1;
                    bool ok = difference_repair_potential(n, arcs, by_tail, active, pi, e, pw);
                    out(ev("activate").add("arc", static_cast<int>(e)).add("ok", ok).add("pi", ints(pi)));
                    if (! ok) {
                        active[e] = 0;
                        failed = true;
                    }
                    else {
                        flb[arcs[e].from] = 1;
                        fub[arcs[e].to] = 1;
                    }
                }
            }
            if (what >= 4) {
                auto k = rng.in(1, 3);
                for (int i = 0; i < k; ++i) {
                    auto v = static_cast<size_t>(rng.in(0, static_cast<long long>(n) - 1));
                    if (rng.chance(1, 2))
                        lb[v] += Integer{rng.in(0, 5) * scale};
                    else
                        ub[v] -= Integer{rng.in(0, 5) * scale};
                    out(ev("tighten").add("node", static_cast<int>(v)).add("lb", lb[v].raw_value).add("ub", ub[v].raw_value));
                }
            }
            run();
        }
    }
}
