// Drives IntervalSet through every operation on every set in a small window,
// and through random histories, for IntervalSetTrace.tla. The window lies at
// various bases, the extremes of the number type among them.
#include "common.hh"
#include <gcs/integer.hh>
#include <gcs/interval_set.hh>
#include <climits>
#include <utility>
using namespace verif;
using gcs::Integer;
using gcs::IntervalSet;

namespace
{
    using Runs = std::vector<std::vector<long long>>;

    auto raw(Integer i) -> long long
    {
        return i.raw_value;
    }
    auto raw(int i) -> long long
    {
        return i;
    }

    template <typename Int_>
    struct Session
    {
        Shards & out;
        Progress & progress;
        long long base;
        IntervalSet<Int_> sets[3];

        auto v(long long rel) const -> Int_
        {
            return Int_(base + rel);
        }
        auto rel(Int_ i) const -> long long
        {
            return raw(i) - base;
        }
        auto runs(const IntervalSet<Int_> & s) const -> Runs
        {
            Runs r;
            for (const auto & [a, b] : s.each_interval())
                r.push_back({rel(a), rel(b)});
            return r;
        }
        auto begin() -> void
        {
            out.next();
            for (auto & s : sets)
                s = IntervalSet<Int_>{};
            out(ev("begin").add("base", std::to_string(base)));
        }
        auto op(const std::string & name, int r, int q, long long a, long long b) -> void
        {
            auto & s = sets[r - 1];
            progress(name + " base " + std::to_string(base) + " r " + std::to_string(r) + " q " + std::to_string(q) + " a " + std::to_string(a) + " b " + std::to_string(b));
            if (name == "empty")
                s = IntervalSet<Int_>{};
            else if (name == "range")
                s = IntervalSet<Int_>{v(a), v(b)};
            else if (name == "copy") {
                if (b)
                    s = sets[q - 1];
                else {
                    IntervalSet<Int_> c{sets[q - 1]};
                    s = std::move(c);
                }
            }
            else if (name == "move") {
                s = std::move(sets[q - 1]);
            }
            else if (name == "erase")
                s.erase(v(a));
            else if (name == "erase_range")
                s.erase_range(v(a), v(b));
            else if (name == "erase_less_than")
                s.erase_less_than(v(a));
            else if (name == "erase_greater_than")
                s.erase_greater_than(v(a));
            else if (name == "insert")
                s.insert_at_end(v(a));
            else if (name == "insert_range")
                s.insert_at_end(v(a), v(b));
            else if (name == "intersect")
                s.intersect_with(sets[q - 1]);
            else if (name == "clear")
                s.clear();
            out(ev("op").add("op", name).add("r", r).add("q", q).add("a", a).add("b", b).add("now", runs(s)));
            if (name == "move") {
                sets[q - 1] = IntervalSet<Int_>{};
                out(ev("op").add("op", "empty").add("r", q).add("q", 0).add("a", 0).add("b", 0).add("now", runs(sets[q - 1])));
            }
        }
        auto see(int r, long long from, long long to, int stop) -> void
        {
            const auto & s = sets[r - 1];
            progress("see base " + std::to_string(base));
            std::vector<long long> has, each, for_each, stopping, reversed, gaps;
            for (auto x = from; x <= to; ++x)
                if (s.contains(v(x)))
                    has.push_back(x);
            for (auto x : s.each())
                each.push_back(rel(x));
            s.for_each([&](Int_ x) { for_each.push_back(rel(x)); });
            s.for_each([&](Int_ x) -> bool {
                if (stop == 0)
                    return false;
                stopping.push_back(rel(x));
                return static_cast<int>(stopping.size()) < stop;
            });
            for (auto x : s.each_reversed())
                reversed.push_back(rel(x));
            for (auto x : s.each_gap())
                gaps.push_back(rel(x));
            Runs gi;
            for (const auto & [a, b] : s.each_gap_interval())
                gi.push_back({rel(a), rel(b)});
            out(ev("see").add("r", r).add("empty", s.empty()).add("size", raw(s.size())).add("holes", s.has_holes()).add("lower", s.empty() ? 0 : rel(s.lower())).add("upper", s.empty() ? 0 : rel(s.upper())).add("from", from).add("to", to).add("has", has).add("each", each).add("for_each", for_each).add("stop", stop).add("stopping", stopping).add("reversed", reversed).add("gaps", gaps).add("gap_intervals", gi));
        }
        auto compare(int r, int q) -> void
        {
            progress("compare base " + std::to_string(base));
            Runs minus;
            for (const auto & [a, b] : sets[r - 1].each_interval_minus(sets[q - 1]))
                minus.push_back({rel(a), rel(b)});
            out(ev("compare").add("r", r).add("q", q).add("any", sets[r - 1].contains_any_of(sets[q - 1])).add("minus", minus));
        }

        // the set with these bits, by insertions
        auto build(int r, unsigned bits, int width, bool ranges) -> void
        {
            op("empty", r, 0, 0, 0);
            for (int i = 0; i < width; ++i)
                if (bits & (1u << i)) {
                    int j = i;
                    while (ranges && j + 1 < width && (bits & (1u << (j + 1))))
                        ++j;
                    if (ranges)
                        op("insert_range", r, 0, i, j);
                    else
                        op("insert", r, 0, i, 0);
                    i = j;
                }
        }

        auto every(int width, bool ranges) -> void
        {
            for (unsigned bits = 0; bits < (1u << width); ++bits) {
                begin();
                build(1, bits, width, ranges);
                see(1, 0, width - 1, static_cast<int>(bits) % (width + 1));
                auto on = [&](const std::string & name, long long a, long long b) {
                    op("copy", 2, 1, 0, a % 2);
                    op(name, 2, 0, a, b);
                };
                on("clear", 0, 0);
                for (int a = 0; a < width; ++a) {
                    on("erase", a, 0);
                    on("erase_less_than", a, 0);
                    on("erase_greater_than", a, 0);
                    for (int b = a == 0 ? 0 : a - 1; b < width; ++b) {
                        on("erase_range", a, b);
                        if (b >= a && (bits >> a) <= 1)
                            on("insert_range", a, b);
                    }
                    if ((bits >> a) <= 1)
                        on("insert", a, 0);
                }
            }
        }

        auto pairs(int width) -> void
        {
            for (unsigned bits = 0; bits < (1u << width); ++bits) {
                begin();
                build(1, bits, width, true);
                for (unsigned other = 0; other < (1u << width); ++other) {
                    build(2, other, width, true);
                    compare(1, 2);
                    op("copy", 3, 1, 0, 0);
                    op("intersect", 3, 2, 0, 0);
                }
            }
        }

        auto history(Rng & rng, int width, int length) -> void
        {
            begin();
            for (int step = 0; step < length; ++step) {
                int r = static_cast<int>(rng.in(1, 3)), q = static_cast<int>(rng.in(1, 3));
                auto a = rng.in(0, width - 1), b = rng.in(0, width - 1);
                if (rng.chance(1, 3))
                    b = std::min<long long>(width - 1, a + rng.in(0, 3));
                auto & s = sets[r - 1];
                auto top = s.empty() ? 0 : rel(s.upper());
                switch (rng.in(0, 13)) {
                case 0: op("range", r, 0, std::min(a, b), std::max(a, b)); break;
                case 1: op("copy", r, q, 0, rng.in(0, 1)); break;
                case 2:
                    if (r != q)
                        op("move", r, q, 0, 0);
                    break;
                case 3:
                case 4:
                case 5: op("erase", r, 0, a, 0); break;
                case 6: op("erase_range", r, 0, a, b); break;
                case 7:
                    if (rng.chance(1, 2))
                        op("erase_less_than", r, 0, a / 3, 0);
                    else
                        op("erase_greater_than", r, 0, width - 1 - a / 3, 0);
                    break;
                case 8:
                case 9: {
                    auto x = rng.in(top, width - 1);
                    if (rng.chance(1, 2))
                        op("insert", r, 0, x, 0);
                    else
                        op("insert_range", r, 0, x, std::min<long long>(width - 1, x + rng.in(0, 4)));
                    break;
                }
                case 10:
                    if (rng.chance(1, 3))
                        op("intersect", r, q, 0, 0);
                    break;
                case 11: see(r, 0, width - 1, static_cast<int>(rng.in(0, 5))); break;
                default: compare(r, q); break;
                }
                if (rng.chance(1, 60))
                    op(rng.chance(1, 2) ? "clear" : "empty", r, 0, 0, 0);
            }
        }
    };
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Progress progress(args.out);
    Shards out(args.out, "iset", args.shards);
    int small = args.thorough ? 7 : 5;
    int histories = args.thorough ? 1500 : 150;
    auto integers = [&](long long base) { return Session<Integer>{out, progress, base, {}}; };

    integers(-2).every(args.thorough ? 8 : 6, false);
    integers(-2).every(args.thorough ? 8 : 6, true);
    integers(LLONG_MAX - small + 1).every(small, true);
    integers(LLONG_MIN).every(small, true);
    integers(-3).pairs(args.thorough ? 6 : 5);
    integers(LLONG_MAX - 3).pairs(4);
    integers(LLONG_MIN).pairs(4);
    Session<int>{out, progress, -1, {}}.every(small, true);
    for (int i = 0; i < histories; ++i) {
        int width = static_cast<int>(rng.chance(1, 2) ? rng.in(4, 14) : rng.in(15, 50));
        auto length = static_cast<int>(rng.in(20, 160));
        long long base = rng.chance(1, 3) ? rng.in(-60, 10) : rng.chance(1, 2) ? LLONG_MAX - width + 1 : LLONG_MIN;
        if (rng.chance(1, 5))
            Session<int>{out, progress, rng.in(-60, 10), {}}.history(rng, width, length);
        else
            integers(base).history(rng, width, length);
    }
    return 0;
}
