// Records root simplifications of difference systems.
#include "common.hh"
#include <gcs/constraints/difference/difference_simplify.hh>
#include <gcs/exception.hh>
using namespace verif;
using gcs::Integer;
using namespace gcs::innards;
using std::size_t;
using std::vector;

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Progress progress(args.out);
    Shards out(args.out, "diffsimp", args.shards);
    auto go = [&](size_t n, const vector<DifferenceSimplifyEdge> & edges, const vector<int> & roles_in) {
        out.next();
        vector<J> ej, rj;
        vector<DifferenceSimplifyRole> roles;
        std::string about = "n=" + std::to_string(n);
        for (size_t i = 0; i < edges.size(); ++i) {
            auto & e = edges[i];
            ej.push_back(arr({J{static_cast<int>(e.from)}, J{static_cast<int>(e.to)}, J{e.d.raw_value}}));
            roles.push_back(roles_in[i] == 0 ? DifferenceSimplifyRole::Base : roles_in[i] == 1 ? DifferenceSimplifyRole::Candidate : DifferenceSimplifyRole::Ignored);
            rj.push_back(J{roles_in[i] == 0 ? "base" : roles_in[i] == 1 ? "cand" : "ignored"});
            about += " " + std::to_string(e.from) + ">" + std::to_string(e.to) + ":" + e.d.to_string();
        }
        progress(about);
        auto r = simplify_difference_graph(n, edges, roles);
        vector<J> remove, fix;
        for (bool b : r.remove)
            remove.push_back(J{b});
        for (auto & [e, path] : r.fix) {
            vector<int> p(path.begin(), path.end());
            fix.push_back(arr({J{static_cast<int>(e)}, J{p}}));
        }
        out(ev("simplify").add("n", static_cast<int>(n)).add("edges", ej).add("roles", rj).add("neg", r.base_negative_cycle).add("remove", remove).add("fix", fix).add("zero", static_cast<int>(r.zero_weight_cycles)).add("onzero", static_cast<int>(r.nodes_on_zero_weight_cycles)));
    };
    // every system of two edges over two nodes with small weights, and of three
    // edges chosen at random over three
    for (int code = 0; code < 2 * 2 * 2 * 2 * 9 * 25; ++code) {
        if (! args.thorough && code % 3 != static_cast<int>(args.seed % 3))
            continue;
        int c = code;
        auto take = [&](int k) { int r = c % k; c /= k; return r; };
        vector<DifferenceSimplifyEdge> es;
        size_t a = take(2), b = take(2), d = take(2), f = take(2);
        int r1 = take(3), r2 = take(3);
        es.push_back({a, b, Integer{take(5) - 2}});
        es.push_back({d, f, Integer{take(5) - 2}});
        go(2, es, {r1, r2});
    }
    go(0, {}, {});
    go(3, {}, {});
    {
        bool threw = false;
        try {
            (void)simplify_difference_graph(1, {{0, 0, Integer{1}}}, {});
        }
        catch (const gcs::UnexpectedException &) {
            threw = true;
        }
        if (threw)
            out(ev("refuse").add("edges", 1).add("roles", 0));
        else
            out(ev("refuse").add("edges", 0).add("roles", 0));
    }
    for (int i = 0, total = args.thorough ? 20000 : 1500; i < total; ++i) {
        auto n = static_cast<size_t>(rng.in(1, rng.chance(1, 4) ? 8 : 5));
        auto m = static_cast<size_t>(rng.in(1, static_cast<long long>(rng.chance(1, 2) ? 3 * n : 2 * n)));
        vector<long long> hidden(n);
        for (auto & h : hidden)
            h = rng.in(-5, 5);
        auto style = rng.in(0, 9);
        long long scale = rng.chance(1, 12) ? 1000000 : 1;
        vector<DifferenceSimplifyEdge> es;
        vector<int> roles;
        for (size_t e = 0; e < m; ++e) {
            auto u = static_cast<size_t>(rng.in(0, static_cast<long long>(n) - 1)), v = static_cast<size_t>(rng.in(0, static_cast<long long>(n) - 1));
            if (u == v && rng.chance(9, 10))
                v = (v + 1) % n;
            if (e > 0 && rng.chance(1, 4)) { // parallel or reversed
                auto & p = es[static_cast<size_t>(rng.in(0, static_cast<long long>(e) - 1))];
                u = p.from, v = p.to;
                if (rng.chance(1, 2))
                    std::swap(u, v);
            }
            int role = style == 0 ? 0 : rng.chance(1, 2) ? 0 : rng.chance(4, 5) ? 1 : 2;
            // base edges respect the hidden assignment, often tightly; candidates need not
            long long slack = rng.chance(1, 2) ? 0 : rng.in(0, 3);
            long long d = hidden[u] - hidden[v] + slack;
            if (role != 0)
                d -= rng.in(0, 4);
            if (style == 1 && rng.chance(1, 4))
                d -= rng.in(1, 3);
            if (style == 2)
                d = rng.in(-2, 4);
            es.push_back({u, v, Integer{d * scale}});
            roles.push_back(role);
        }
        go(n, es, roles);
    }
}
