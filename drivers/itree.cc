// Drives the interval index through random insertions and queries, for
// IntervalTreeTrace.tla. Values are written as ranks within the session.
#include "common.hh"
#include <gcs/innards/interval_tree.hh>
#include <algorithm>
#include <climits>
#include <set>
using namespace verif;
using gcs::Integer;
using gcs::innards::IntervalTree;

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Progress progress(args.out);
    Shards out(args.out, "itree", args.shards);
    int sessions = args.thorough ? 1200 : 220;
    for (int session = 0; session < sessions; ++session) {
        progress("session " + std::to_string(session));
        out.next();
        out(ev("begin"));
        // the values of this session, in order
        std::vector<long long> values;
        auto style = rng.in(0, 4);
        auto count = style == 0 ? rng.in(2, 5) : style == 1 ? rng.in(6, 12) : rng.in(10, 40);
        std::set<long long> vs;
        if (style == 3)
            vs = {LLONG_MIN, LLONG_MIN + 1, LLONG_MAX - 1, LLONG_MAX, 0, -1, 1};
        auto base = rng.in(-30, 10);
        while (static_cast<long long>(vs.size()) < count + (style == 3 ? 7 : 0))
            vs.insert(style == 3 ? static_cast<long long>(rng.next()) : style == 4 ? rng.in(-1000000000ll, 1000000000ll) : base + static_cast<long long>(vs.size()));
        values.assign(vs.begin(), vs.end());
        auto rank = [&](Integer v) {
            auto it = std::lower_bound(values.begin(), values.end(), v.raw_value);
            return it != values.end() && *it == v.raw_value ? static_cast<int>(it - values.begin()) : -1;
        };
        auto pick = [&]() {
            auto a = rng.in(0, static_cast<long long>(values.size()) - 1), b = rng.in(0, static_cast<long long>(values.size()) - 1);
            if (rng.chance(1, 3))
                b = std::min<long long>(a + rng.in(0, 3), static_cast<long long>(values.size()) - 1);
            return std::pair{static_cast<std::size_t>(std::min(a, b)), static_cast<std::size_t>(std::max(a, b))};
        };
        IntervalTree tree;
        std::vector<std::pair<std::size_t, std::size_t>> plan;
        auto pattern = rng.in(0, 4);
        int inserts = static_cast<int>(rng.in(1, rng.chance(1, 5) ? 90 : 25));
        for (int i = 0; i < inserts; ++i)
            plan.push_back(pick());
        if (pattern == 0)
            std::sort(plan.begin(), plan.end());
        else if (pattern == 1)
            std::sort(plan.rbegin(), plan.rend());
        else if (pattern == 2) { // nested or chained
            auto n = values.size();
            plan.clear();
            for (std::size_t i = 0; i < n / 2; ++i)
                plan.emplace_back(i, n - 1 - i);
            for (std::size_t i = 0; i + 1 < n; ++i)
                plan.emplace_back(i, i + 1);
            rng.shuffle(plan);
        }
        auto query = [&](std::pair<std::size_t, std::size_t> q) {
            std::vector<J> containing, contained;
            auto lo = Integer{values[q.first]}, hi = Integer{values[q.second]};
            tree.for_each_containing(lo, hi, [&](Integer a, Integer b) { containing.push_back(arr({rank(a), rank(b)})); });
            tree.for_each_contained_in(lo, hi, [&](Integer a, Integer b) { contained.push_back(arr({rank(a), rank(b)})); });
            out(ev("query").add("lo", static_cast<int>(q.first)).add("hi", static_cast<int>(q.second)).add("containing", containing).add("contained", contained));
        };
        query(pick());
        for (std::size_t i = 0; i < plan.size(); ++i) {
            tree.insert(Integer{values[plan[i].first]}, Integer{values[plan[i].second]});
            out(ev("insert").add("lo", static_cast<int>(plan[i].first)).add("hi", static_cast<int>(plan[i].second)));
            if (rng.chance(1, 8)) {
                auto again = rng.in(0, static_cast<long long>(i));
                tree.insert(Integer{values[plan[again].first]}, Integer{values[plan[again].second]});
                out(ev("insert").add("lo", static_cast<int>(plan[again].first)).add("hi", static_cast<int>(plan[again].second)));
            }
            if (rng.chance(1, 4))
                query(rng.chance(1, 2) ? pick() : plan[static_cast<std::size_t>(rng.in(0, static_cast<long long>(i)))]);
        }
        // every query of a small session, many of a large one
        if (values.size() <= 8) {
            for (std::size_t a = 0; a < values.size(); ++a)
                for (std::size_t b = a; b < values.size(); ++b)
                    query({a, b});
        }
        else
            for (int i = 0; i < 20; ++i)
                query(rng.chance(1, 2) ? pick() : rng.pick(plan));
        query({0, values.size() - 1});
    }
}
