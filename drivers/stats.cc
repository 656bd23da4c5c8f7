// Records the life of statistics objects, for StatsTrace.tla.
#include "common.hh"
#include <gcs/constraint.hh>
#include <gcs/constraints/cumulative/derived_cumulative_stats.hh>
#include <gcs/stats.hh>

#include <format>
#include <functional>
#include <iostream>
#include <memory>
#include <sstream>

using namespace verif;
using namespace gcs;

namespace
{
    struct Component final : ComponentStats
    {
        int number;
        long long count = 0;
        explicit Component(int n) : number(n)
        {
        }
        auto component_name() const -> std::string override
        {
            return "component_" + std::to_string(number % 3);
        }
        auto summary() const -> std::string override
        {
            return count == 0 ? "nothing" : std::to_string(count) + " things";
        }
        auto entries() const -> std::vector<StatsEntry> override
        {
            return {StatsEntry{"count", count}};
        }
    };

    auto lines(const std::string & s) -> J
    {
        std::vector<J> r;
        std::string cur;
        for (char c : s) {
            if (c == '\n') {
                r.push_back(J{cur});
                cur.clear();
            }
            else
                cur += c;
        }
        if (! cur.empty())
            r.push_back(J{"UNTERMINATED " + cur});
        return J{r};
    }

    const char * level_names[] = {"debug", "detailed", "general", "important"};

    auto idj(const ConstraintID & c) -> J
    {
        if (auto n = std::get_if<NumberedConstraint>(&c))
            return arr({J{"numbered"}, J{std::to_string(n->number)}});
        if (auto n = std::get_if<NamedConstraint>(&c))
            return arr({J{"named"}, J{std::string{n->name}}});
        return arr({J{"unnamed"}, J{""}});
    }

    auto notej(const StatsNote & n) -> J
    {
        return Obj()
            .add("level", level_names[static_cast<int>(n.level)])
            .add("component", n.component)
            .add("about", n.constraint ? idj(*n.constraint) : arr({J{"none"}, J{""}}))
            .add("text", n.text);
    }

    auto random_id(Rng & rng) -> ConstraintID
    {
        static const std::vector<std::string> names{"x", "_1", "alpha", "unnamed", "_18446744073709551615"};
        switch (rng.in(0, 2)) {
        case 0: return CurrentlyUnnamedConstraint{};
        case 1: return NumberedConstraint{rng.chance(1, 5) ? ~0ull : static_cast<unsigned long long>(rng.in(1, 3))};
        default: return NamedConstraint{rng.pick(names)};
        }
    }

    struct Field
    {
        const char * name;
        unsigned long long Stats::*member;
    };
    const std::vector<Field> fields{{"n_propagators", &Stats::n_propagators}, {"idempotence_downgrades", &Stats::idempotence_downgrades},
        {"recursions", &Stats::recursions}, {"failures", &Stats::failures}, {"propagations", &Stats::propagations},
        {"effectful_propagations", &Stats::effectful_propagations}, {"contradicting_propagations", &Stats::contradicting_propagations},
        {"max_depth", &Stats::max_depth}, {"restarts", &Stats::restarts}, {"learned_nogoods", &Stats::learned_nogoods}, {"solutions", &Stats::solutions}};

    auto session(Shards & out, Rng & rng) -> void
    {
        Stats stats;
        stats.solve_time = std::chrono::microseconds{0};
        std::vector<J> initial;
        for (auto & f : fields)
            initial.push_back(J{std::to_string(stats.*f.member)});
        out(ev("begin").add("initial", J{initial}));
        std::vector<std::shared_ptr<Component>> comps;
        for (int i = 0; i < 5; ++i)
            comps.push_back(std::make_shared<Component>(i));
        std::vector<J> heard;
        std::vector<std::size_t> heard_at;
        auto length = rng.in(3, 40);
        for (int step = 0; step < length; ++step) {
            switch (rng.in(0, 9)) {
            case 0:
            case 1: {
                auto c = static_cast<int>(rng.in(-1, 4));
                std::shared_ptr<const ComponentStats> p = c < 0 ? nullptr : std::shared_ptr<const ComponentStats>(comps[static_cast<std::size_t>(c)]);
                stats.add_component(p);
                std::vector<int> got;
                for (auto & q : stats.components()) {
                    int who = -1;
                    for (int i = 0; i < 5; ++i)
                        if (q == comps[static_cast<std::size_t>(i)])
                            who = i;
                    got.push_back(who + 1);
                }
                out(ev("register").add("c", c + 1).add("components", got));
                break;
            }
            case 2: {
                auto c = rng.in(0, 4);
                auto by = rng.in(1, 5);
                comps[static_cast<std::size_t>(c)]->count += by;
                out(ev("count").add("c", c + 1).add("by", by));
                break;
            }
            case 3:
            case 4:
            case 5: {
                static const std::vector<std::string> names{"", "auto_table", "x"}, texts{"", "something", "figures: 3 of 4", "(odd)"};
                StatsNote n{static_cast<StatsLevel>(rng.in(0, 3)), rng.pick(names), std::nullopt, rng.pick(texts)};
                if (rng.chance(1, 2))
                    n.constraint = random_id(rng);
                heard.clear();
                heard_at.clear();
                std::ostringstream captured;
                auto old = std::cerr.rdbuf(captured.rdbuf());
                auto before = n;
                auto r = render(n);
                stats.report(std::move(n));
                std::cerr.rdbuf(old);
                std::vector<J> notes;
                for (auto & m : stats.notes())
                    notes.push_back(notej(m));
                out(ev("report").add("note", notej(before)).add("rendered", r).add("heard", J{heard}).add("heard_at", J{heard_at}).add("stderr", lines(captured.str())).add("notes", J{notes}));
                break;
            }
            case 6: {
                auto k = rng.in(0, 4);
                std::string kind = "none";
                if (k == 0)
                    stats.set_report_handler({});
                else if (k == 1) {
                    kind = "silent";
                    stats.set_report_handler(silent_stats_report());
                }
                else if (k == 2) {
                    kind = "recording";
                    stats.set_report_handler([&heard, &heard_at, &stats](const StatsNote & n) {
                        heard.push_back(notej(n));
                        heard_at.push_back(stats.notes().size());
                    });
                }
                else if (k == 3) {
                    kind = "important";
                    stats.set_report_handler(default_stats_report());
                }
                else {
                    auto l = rng.in(0, 3);
                    kind = level_names[l];
                    stats.set_report_handler(default_stats_report(static_cast<StatsLevel>(l)));
                }
                out(ev("handler").add("kind", kind));
                break;
            }
            case 7: {
                auto & f = rng.pick(fields);
                auto v = rng.chance(1, 4) ? ~0ull - static_cast<unsigned long long>(rng.in(0, 3)) : rng.chance(1, 4) ? 0ull : static_cast<unsigned long long>(rng.in(0, 100000));
                stats.*f.member = v;
                out(ev("set").add("field", f.name).add("value", std::to_string(v)));
                break;
            }
            case 8: {
                auto halves = rng.in(0, 200);
                stats.solve_time = std::chrono::microseconds{halves * 500000};
                out(ev("time").add("halves", halves));
                break;
            }
            case 9: {
                std::ostringstream o;
                bool chained = &(o << stats) == &o;
                std::vector<J> entries;
                for (auto & c : stats.components())
                    for (auto & e : c->entries())
                        entries.push_back(arr({J{e.name}, J{e.value}}));
                out(ev("print").add("lines", lines(o.str())).add("formatted", lines(std::format("{}", stats))).add("chained", chained).add("entries", J{entries}));
                // a copy reports the same thing
                if (rng.chance(1, 3)) {
                    Stats copy = stats;
                    std::ostringstream oc;
                    oc << copy;
                    out(ev("print").add("lines", lines(oc.str())).add("formatted", lines(oc.str())).add("chained", true).add("entries", J{entries}));
                }
                break;
            }
            }
        }
    }

    auto identities(Shards & out, Rng & rng) -> void
    {
        std::vector<ConstraintID> ids;
        for (int i = 0; i < 6; ++i)
            ids.push_back(random_id(rng));
        std::hash<ConstraintID> h;
        for (auto & a : ids) {
            out(ev("idtext").add("a", idj(a)).add("text", as_string(a)).add("formatted", std::format("{}", a)));
            for (auto & b : ids)
                out(ev("idcmp").add("a", idj(a)).add("b", idj(b)).add("eq", a == b).add("lt", a < b).add("gt", a > b).add("hash", h(a) == h(b)));
        }
    }

    auto derived(Shards & out, Rng & rng) -> void
    {
        DerivedCumulativeStats d;
        std::vector<StatsEntry> entries;
        std::vector<J> before;
        for (auto n = rng.in(0, 2); n > 0; --n) {
            entries.push_back(StatsEntry{"e" + std::to_string(n), n});
            before.push_back(arr({J{entries.back().name}, J{entries.back().value}}));
        }
        auto zero = std::vector<std::size_t>{d.constraints, d.donors, d.capacity_rows, d.makespan_bounds_posted};
        d.constraints = static_cast<std::size_t>(rng.in(0, 99));
        d.donors = static_cast<std::size_t>(rng.in(100, 199));
        d.capacity_rows = static_cast<std::size_t>(rng.in(200, 299));
        d.makespan_bounds_posted = static_cast<std::size_t>(rng.in(300, 399));
        static const std::vector<std::string> prefixes{"", "derived_", "x."};
        auto & prefix = rng.pick(prefixes);
        d.add_entries_to(entries, prefix);
        std::vector<J> got;
        for (auto & e : entries)
            got.push_back(arr({J{e.name}, J{e.value}}));
        out(ev("derived").add("before", J{before}).add("zero", zero).add("values", std::vector<std::size_t>{d.constraints, d.donors, d.capacity_rows, d.makespan_bounds_posted}).add("prefix", prefix).add("got", J{got}));
    }
}

auto main(int argc, char ** argv) -> int
{
    Args a(argc, argv);
    Shards out(a.out, "stats", a.shards);
    Rng rng(a.seed);
    auto rounds = a.thorough ? 8000 : 500;
    for (int i = 0; i < rounds; ++i) {
        session(out, rng);
        if (i % 4 == 0)
            identities(out, rng);
        derived(out, rng);
        out.next();
    }
}
