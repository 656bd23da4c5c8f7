// Records what the example instance generators make and what the schedule helpers say of an
// instance, for ScheduleTrace.tla.
#include "common.hh"
#include <examples/p_dispersion/p_dispersion_instance.hh>
#include <examples/rcpsp/rcpsp_instance.hh>
#include <examples/table_layout/table_layout_instance.hh>

#include <functional>
#include <stdexcept>

using namespace verif;
using gcs::Integer;

namespace
{
    auto nums(const std::vector<Integer> & v) -> J
    {
        std::vector<J> r;
        for (auto & x : v)
            r.push_back(J{x.raw_value});
        return J{r};
    }

    auto longs(const std::vector<long long> & v) -> J
    {
        std::vector<J> r;
        for (auto & x : v)
            r.push_back(J{x});
        return J{r};
    }

    auto instj(const rcpsp::Instance & i) -> J
    {
        std::vector<J> q, p, g;
        for (auto & r : i.demands)
            q.push_back(nums(r));
        for (auto & [a, b] : i.precedences)
            p.push_back(arr({J{a}, J{b}}));
        for (auto & l : i.lags)
            g.push_back(arr({J{l.from}, J{l.to}, J{l.d.raw_value}}));
        return Obj()
            .add("n", i.n_tasks)
            .add("d", nums(i.durations))
            .add("cap", nums(i.capacities))
            .add("dem", J{q})
            .add("prec", J{p})
            .add("lags", J{g})
            .add("machine", i.machine_tasks)
            .add("source", i.source_task ? *i.source_task : -1);
    }

    auto bounds(Shards & out, const rcpsp::Instance & i) -> void
    {
        auto e = ev("bounds").add("inst", instj(i));
        auto serial = rcpsp::serial_schedule(i);
        e.add("est", longs(rcpsp::earliest_starts(i))).add("tails", longs(rcpsp::tails(i))).add("critical", rcpsp::critical_path_length(i));
        e.add("horizon", rcpsp::default_horizon(i)).add("backward", rcpsp::has_maximum_lags(i));
        e.add("serial", longs(serial)).add("makespan", rcpsp::makespan_of(i, serial)).add("feasible", rcpsp::is_feasible(i, serial));
        out(e);
    }

    auto random_instance(Rng & rng) -> rcpsp::Instance
    {
        rcpsp::Instance i;
        i.n_tasks = static_cast<int>(rng.in(1, 6));
        auto n = static_cast<std::size_t>(i.n_tasks);
        bool zeros = rng.chance(1, 3);
        for (std::size_t t = 0; t < n; ++t)
            i.durations.push_back(Integer{rng.in(zeros ? 0 : 1, 4)});
        auto res = static_cast<std::size_t>(rng.in(0, 3));
        for (std::size_t r = 0; r < res; ++r) {
            auto cap = rng.in(0, 5);
            i.capacities.push_back(Integer{cap});
            i.demands.emplace_back();
            for (std::size_t t = 0; t < n; ++t)
                i.demands.back().push_back(Integer{rng.chance(1, 3) ? 0 : rng.in(0, cap)});
        }
        for (int a = 0; a < i.n_tasks; ++a)
            for (int b = a + 1; b < i.n_tasks; ++b)
                if (rng.chance(1, 4))
                    i.precedences.emplace_back(a, b);
        if (rng.chance(1, 2))
            rng.shuffle(i.precedences);
        for (int a = 0; a < i.n_tasks; ++a)
            if (rng.chance(1, 3))
                i.machine_tasks.push_back(a);
        if (rng.chance(1, 2))
            for (auto k = rng.in(1, 4); k > 0; --k)
                i.lags.push_back(rcpsp::Lag{static_cast<int>(rng.in(0, i.n_tasks - 1)), static_cast<int>(rng.in(0, i.n_tasks - 1)), Integer{rng.in(-5, 7)}});
        if (rng.chance(1, 4))
            i.source_task = static_cast<int>(rng.in(0, i.n_tasks - 1));
        return i;
    }

    auto feasible(Shards & out, Rng & rng, const rcpsp::Instance & i) -> void
    {
        for (int k = 0; k < 12; ++k) {
            std::vector<long long> s;
            if (rng.chance(1, 2)) {
                s = rcpsp::serial_schedule(i);
                for (auto m = rng.in(0, 2); m > 0; --m) {
                    auto & x = s[static_cast<std::size_t>(rng.in(0, i.n_tasks - 1))];
                    x += rng.in(-2, 2);
                }
            }
            else {
                auto width = rng.in(1, 14);
                for (int t = 0; t < i.n_tasks; ++t)
                    s.push_back(rng.in(0, width));
                if (i.source_task && rng.chance(3, 4))
                    s[static_cast<std::size_t>(*i.source_task)] = 0;
            }
            if (rng.chance(1, 15))
                s.push_back(0);
            else if (rng.chance(1, 15))
                s.pop_back();
            auto e = ev("feasible").add("inst", instj(i)).add("starts", longs(s));
            out(e.add("r", rcpsp::is_feasible(i, s)));
        }
    }

    auto same(const rcpsp::Instance & a, const rcpsp::Instance & b, bool lags) -> bool
    {
        auto lag = [](const rcpsp::Lag & x, const rcpsp::Lag & y) { return x.from == y.from && x.to == y.to && x.d == y.d; };
        return a.n_tasks == b.n_tasks && a.durations == b.durations && a.capacities == b.capacities && a.demands == b.demands &&
            a.precedences == b.precedences && a.machine_tasks == b.machine_tasks && a.source_task == b.source_task &&
            (! lags || std::equal(a.lags.begin(), a.lags.end(), b.lags.begin(), b.lags.end(), lag));
    }

    auto generated(Shards & out, Rng & rng) -> void
    {
        rcpsp::GeneratorOptions o;
        bool odd = rng.chance(1, 6);
        o.n_tasks = static_cast<int>(rng.in(odd ? -1 : 1, 8));
        o.seed = static_cast<std::uint_fast32_t>(rng.in(0, 1000000));
        o.n_resources = static_cast<int>(rng.in(odd ? -1 : 0, 3));
        o.capacity = static_cast<int>(rng.in(0, 6));
        o.max_duration = static_cast<int>(rng.in(odd ? -1 : 1, 5));
        o.max_demand = static_cast<int>(rng.in(odd ? -1 : 0, odd ? o.capacity + 1 : o.capacity));
        o.precedence_density = static_cast<double>(rng.in(0, 4)) / 4;
        o.precedence_window = static_cast<int>(rng.in(1, 5));
        o.machine_fraction = static_cast<double>(rng.in(0, 4)) / 4;
        if (rng.chance(2, 3)) {
            o.max_lag_density = static_cast<double>(rng.in(0, 4)) / 4;
            o.max_lag_span = static_cast<int>(rng.in(1, 6));
            o.max_lag_slack = rng.in(0, 3);
            o.infeasible = rng.chance(1, 3);
        }
        auto e = ev("generate")
                     .add("n", o.n_tasks)
                     .add("resources", o.n_resources)
                     .add("capacity", o.capacity)
                     .add("longest", o.max_duration)
                     .add("hungriest", o.max_demand)
                     .add("density", static_cast<long long>(o.precedence_density * 4))
                     .add("window", o.precedence_window)
                     .add("fraction", static_cast<long long>(o.machine_fraction * 4))
                     .add("lagdensity", static_cast<long long>(o.max_lag_density * 4))
                     .add("span", o.max_lag_span)
                     .add("slack", o.max_lag_slack)
                     .add("infeasible", o.infeasible);
        std::optional<rcpsp::Instance> made;
        try {
            made = rcpsp::generate(o);
            auto again = rcpsp::generate(o);
            auto p = o;
            p.max_lag_density = 0.0;
            p.infeasible = false;
            auto plain = rcpsp::generate(p);
            e.add("ok", true).add("inst", instj(*made)).add("again", same(*made, again, true) && made->description == again.description).add("plain", same(*made, plain, false) && plain.lags.empty());
        }
        catch (const std::runtime_error &) {
            e.add("ok", false).add("inst", arr({})).add("again", true).add("plain", true);
        }
        out(e);
        if (made) {
            bounds(out, *made);
            if (rng.chance(1, 3))
                feasible(out, rng, *made);
        }
    }

    auto sites(Shards & out, const char * how, long w, long h, const std::function<auto()->p_dispersion::Instance> & make) -> void
    {
        auto e = ev("sites").add("how", how).add("w", w).add("h", h);
        try {
            auto i = make(), j = make();
            std::vector<J> c, d;
            for (auto & [x, y] : i.coords)
                c.push_back(arr({J{x}, J{y}}));
            for (auto & r : i.distance)
                d.push_back(nums(r));
            e.add("ok", true)
                .add("n", i.n)
                .add("coords", J{c})
                .add("distance", J{d})
                .add("extra", i.p.has_value() || ! i.reqs.empty())
                .add("largest", p_dispersion::max_distance(i).raw_value)
                .add("again", i.coords == j.coords && i.distance == j.distance && i.description == j.description);
        }
        catch (const std::runtime_error &) {
            e.add("ok", false);
        }
        out(e);
    }

    auto layout(Shards & out, Rng & rng) -> void
    {
        bool odd = rng.chance(1, 5);
        auto rows = static_cast<int>(rng.in(odd ? -1 : 1, 3)), cols = static_cast<int>(rng.in(odd ? -1 : 1, 3)),
             most = static_cast<int>(rng.in(odd ? -1 : 1, 4));
        auto width = rng.chance(1, 2) ? 0L : static_cast<long>(rng.in(-2, 50)), size = static_cast<long>(rng.in(odd ? -1 : 1, 9));
        auto seed = static_cast<std::uint_fast32_t>(rng.in(0, 1000000));
        auto e = ev("layout").add("rows", rows).add("cols", cols).add("most", most).add("asked", width).add("size", size);
        try {
            auto i = table_layout::make_random(rows, cols, most, width, size, seed);
            auto j = table_layout::make_random(rows, cols, most, width, size, seed);
            auto table = [&](const std::vector<std::vector<std::vector<long>>> & t) {
                std::vector<J> r;
                for (auto & row : t) {
                    std::vector<J> rr;
                    for (auto & cell : row) {
                        std::vector<J> v;
                        for (auto x : cell)
                            v.push_back(J{x});
                        rr.push_back(J{v});
                    }
                    r.push_back(J{rr});
                }
                return J{r};
            };
            std::vector<J> legal;
            for (int r = 0; r < i.rows; ++r)
                for (int c = 0; c < i.cols; ++c)
                    legal.push_back(J{static_cast<long long>(table_layout::legal_configurations(i, r, c).size())});
            auto x = table_layout::extents(i);
            e.add("ok", true)
                .add("got", arr({J{i.rows}, J{i.cols}, J{i.maxconfig}, J{i.pixelwidth}}))
                .add("width", table(i.width))
                .add("height", table(i.height))
                .add("legal", J{legal})
                .add("extents", arr({J{x.min_width}, J{x.max_width}, J{x.min_height}, J{x.max_height}}))
                .add("again", i.width == j.width && i.height == j.height && i.description == j.description);
        }
        catch (const std::runtime_error &) {
            e.add("ok", false);
        }
        out(e);
    }
}

auto main(int argc, char ** argv) -> int
{
    Args a(argc, argv);
    Shards out(a.out, "schedule", a.shards);
    Rng rng(a.seed);
    Progress at(a.out);
    for (int w = -1; w <= 5; ++w) {
        out.next();
        out(ev("begin"));
        for (int h = -1; h <= 4; ++h)
            sites(out, "grid", w, h, [&] { return p_dispersion::make_grid(w, h); });
    }
    for (long i = 0, rounds = a.thorough ? 20000 : 1200; i < rounds; ++i) {
        out.next();
        out(ev("begin"));
        switch (rng.in(0, 5)) {
        case 0:
        case 1: generated(out, rng); break;
        case 2:
        case 3: {
            auto inst = random_instance(rng);
            bounds(out, inst);
            feasible(out, rng, inst);
            break;
        }
        case 4: {
            auto n = rng.in(-1, 6);
            auto seed = static_cast<std::uint_fast32_t>(rng.in(0, 100000));
            static const std::vector<long> spans{1000, 0, 1, 7, 9999};
            auto span = rng.pick(spans);
            sites(out, "random", n, span, [&] { return span == 1000 ? p_dispersion::make_random_euclidean(static_cast<int>(n), seed) : p_dispersion::make_random_euclidean(static_cast<int>(n), seed, span); });
            break;
        }
        default: layout(out, rng);
        }
    }
}
