// Records solver arithmetic, for ArithTrace.tla.
#include "common.hh"
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/innards/product_bounds.hh>
#include <gcs/innards/power.hh>
#include <gcs/integer.hh>

#include <climits>
#include <optional>
#include <sstream>
#include <tuple>
#include <unordered_set>

// The checked operations again, compiled as a compiler without the overflow
// builtins would compile them.
namespace portable_gcs
{
    using ::gcs::UnexpectedException;
}
#undef __has_builtin
#define __has_builtin(x) 0
#undef GLASGOW_CONSTRAINT_SOLVER_GUARD_GCS_INNARDS_INTEGER_OVERFLOW_HH
#define gcs portable_gcs
#include "gcs/innards/integer_overflow.hh"
#undef gcs

using namespace verif;
using namespace gcs::innards;
using gcs::Integer;

namespace
{
    template <typename F_>
    auto attempt(F_ f) -> std::optional<decltype(f())>
    {
        try {
            return f();
        }
        catch (const IntegerOverflow &) {
            return std::nullopt;
        }
        catch (const gcs::UnimplementedException &) {
            return std::nullopt;
        }
        catch (const gcs::UnexpectedException &) {
            return std::nullopt;
        }
    }

    template <typename T_>
    auto raw(Shards & out, Rng & rng, const char * type)
    {
        auto value = [&]() -> T_ {
            constexpr T_ lo = std::numeric_limits<T_>::min(), hi = std::numeric_limits<T_>::max();
            switch (rng.in(0, 5)) {
            case 0: return static_cast<T_>(lo + static_cast<T_>(rng.in(0, 3)));
            case 1: return static_cast<T_>(hi - static_cast<T_>(rng.in(0, 3)));
            case 2: return static_cast<T_>(rng.in(0, 4));
            case 3: return static_cast<T_>(static_cast<T_>(rng.next()) >> rng.in(0, static_cast<int>(sizeof(T_) * 8) - 1));
            case 4: return static_cast<T_>(static_cast<T_>(0) - static_cast<T_>(rng.in(0, 4)));
            default: return static_cast<T_>(hi / static_cast<T_>(rng.in(1, 9)) + static_cast<T_>(rng.in(0, 1)));
            }
        };
        T_ a = value(), b = value();
        if (rng.chance(1, 6) && b != 0)
            a = static_cast<T_>(std::numeric_limits<T_>::max() / (b == static_cast<T_>(-1) ? 1 : b));
        auto go = [&](const char * op, auto f) {
            T_ r{};
            bool over = f(a, b, &r);
            auto o = ev("raw").add("type", type).add("op", op).add("a", big(a)).add("b", big(b)).add("ok", ! over);
            if (! over)
                o.add("r", big(r));
            out(o);
        };
        go("add", [](T_ x, T_ y, T_ * z) { return add_overflows(x, y, z); });
        go("sub", [](T_ x, T_ y, T_ * z) { return sub_overflows(x, y, z); });
        go("mul", [](T_ x, T_ y, T_ * z) { return mul_overflows(x, y, z); });
        go("add", [](T_ x, T_ y, T_ * z) { return portable_gcs::innards::add_overflows(x, y, z); });
        go("sub", [](T_ x, T_ y, T_ * z) { return portable_gcs::innards::sub_overflows(x, y, z); });
        go("mul", [](T_ x, T_ y, T_ * z) { return portable_gcs::innards::mul_overflows(x, y, z); });
    }
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Progress progress(args.out);
    Shards out(args.out, "arith", args.shards);

    std::vector<long long> edges{LLONG_MIN, LLONG_MIN + 1, LLONG_MIN + 2, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN / 2, LLONG_MIN / 2 - 1, LLONG_MAX / 2, LLONG_MAX / 2 + 1,
        -3, -2, -1, 0, 1, 2, 3, 7, -7, 1ll << 31, -(1ll << 31), 3037000499ll, 3037000500ll, -3037000499ll, -3037000500ll, 4294967296ll};
    auto value = [&]() -> long long {
        switch (rng.in(0, 4)) {
        case 0: return rng.pick(edges);
        case 1: return rng.in(-12, 12);
        case 2: return static_cast<long long>(rng.next()) >> rng.in(0, 63);
        case 3: return (1ll << rng.in(0, 62)) + rng.in(-2, 2);
        default: {
            auto r = rng.in(-3037000502ll, 3037000502ll);
            return rng.chance(1, 2) ? r : static_cast<long long>(static_cast<unsigned long long>(r) * static_cast<unsigned long long>(r));
        }
        }
    };

    auto result = [&](Obj o, const std::optional<Integer> & r) {
        o.add("ok", r.has_value());
        if (r)
            o.add("r", big(r->raw_value));
        out(o);
    };
    auto at = [&](const char * e, long long a) { return ev(e).add("a", big(a)); };
    auto at2 = [&](const char * e, long long a, long long b) { return ev(e).add("a", big(a)).add("b", big(b)); };

    auto unary = [&](long long a) {
        progress("unary " + std::to_string(a));
        Integer x{a};
        result(at("neg", a), attempt([&] { return -x; }));
        result(at("abs", a), attempt([&] { return abs(x); }));
        result(at("isqrt", a), attempt([&] { return isqrt(x); }));
        result(at("cisqrt", a), attempt([&] { return ceil_isqrt(x); }));
        result(at("power2", a), attempt([&] { return power2(x); }));
        // text forms all name the same number
        std::ostringstream s;
        s << x;
        for (auto & t : {x.to_string(), s.str(), std::format("{}", x)})
            out(at("text", a).add("r", big(static_cast<__int128>(std::stoll(t)))));
        out(at("text", a).add("r", big(static_cast<__int128>(format_as(x)))));
    };
    auto binary = [&](long long a, long long b) {
        progress("binary " + std::to_string(a) + " " + std::to_string(b));
        Integer x{a}, y{b};
        result(at2("add", a, b), attempt([&] { return x + y; }));
        result(at2("sub", a, b), attempt([&] { return x - y; }));
        result(at2("mul", a, b), attempt([&] { return x * y; }));
        auto q = attempt([&] { return x / y; });
        result(at2("div", a, b), q);
        result(at2("mod", a, b).add("q", big(q ? q->raw_value : 0)), attempt([&] { return x % y; }));
        result(at2("floor", a, b), attempt([&] { return div_floor(x, y); }));
        result(at2("ceil", a, b), attempt([&] { return div_ceil(x, y); }));
        result(at2("pmaybe", a, b), product_if_representable(x, y));
        int c = x < y ? -1 : x > y ? 1 : 0;
        if ((x <= y) != (c <= 0) || (x >= y) != (c >= 0) || (x != y) != (c != 0) || ((x <=> y) < 0) != (c < 0) || ((x <=> y) == 0) != (c == 0))
            c = 99;
        out(at2("cmp", a, b).add("r", c).add("eq", x == y).add("hasheq", std::hash<Integer>{}(x) == std::hash<Integer>{}(y)));
    };
    auto power = [&](long long a, long long b) {
        progress("power " + std::to_string(a) + " " + std::to_string(b));
        result(at2("power", a, b), checked_integer_power(Integer{a}, Integer{b}));
    };

    // every pair of extreme values
    for (auto a : edges) {
        out.next();
        unary(a);
        for (auto b : edges)
            binary(a, b);
    }
    int box = args.thorough ? 20 : 9;
    for (int a = -box; a <= box; ++a) {
        out.next();
        for (int b = -box; b <= box; ++b)
            binary(a, b);
    }
    for (int a = -70; a <= 70; ++a)
        unary(a);
    // powers, exhaustively where they are interesting
    for (int a = -11; a <= 11; ++a)
        for (int b = -3; b <= 66; ++b) {
            out.next();
            if (args.thorough || b <= 6 || rng.chance(1, 2) || (a >= -3 && a <= 3))
                power(a, b);
        }
    for (auto a : edges)
        for (auto b : {LLONG_MIN, LLONG_MIN + 1, -2ll, -1ll, 0ll, 1ll, 2ll, 3ll, LLONG_MAX - 1, LLONG_MAX})
            power(a, b);
    // the bases at the edge of each exponent
    for (int e = 2; e <= 40; ++e) {
        out.next();
        // largest base whose e-th power fits
        long long lo = 1, hi = 3037000500ll;
        while (lo < hi) {
            auto m = lo + (hi - lo + 1) / 2;
            __int128 p = 1;
            bool fits = true;
            for (int i = 0; i < e && fits; ++i) {
                p *= m;
                fits = p <= LLONG_MAX;
            }
            if (fits)
                lo = m;
            else
                hi = m - 1;
        }
        for (auto b : {lo, lo + 1, -lo, -lo - 1, lo - 1})
            power(b, e);
    }
    for (int r : {1, 2, 3, 1000, 46341})
        for (int d : {-1, 0, 1})
            unary(static_cast<long long>(r) * r + d);
    for (long long r : {3037000499ll, 3037000498ll, 2147483648ll, 1000000007ll})
        for (int d : {-1, 0, 1})
            unary(r * r + d);

    int n = args.thorough ? 9000 : 700;
    for (int i = 0; i < n; ++i) {
        out.next();
        auto a = value(), b = value();
        unary(a);
        binary(a, b);
        if (b != 0 && ! (a == LLONG_MIN && b == -1)) {
            auto q = a / b; // exact multiples and their neighbours
            binary(q * b, b);
            if (q * b < LLONG_MAX)
                binary(q * b + 1, b);
            // products just inside and just outside
            auto lim = rng.chance(1, 2) ? LLONG_MAX : LLONG_MIN;
            if (b != -1) {
                binary(lim / b, b);
                binary(lim / b + (rng.chance(1, 2) ? 1 : -1), b);
            }
        }
        power(rng.chance(1, 2) ? value() : rng.in(-200, 200), rng.in(-2, 70));
    }

    // bounds of products and squares
    auto boxed = [&](long long a, long long b, long long c, long long d) {
        out.next();
        progress("box " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c) + " " + std::to_string(d));
        auto o = ev("pbounds").add("a", big(a)).add("b", big(b)).add("c", big(c)).add("d", big(d));
        auto r = attempt([&] { return product_bounds(Integer{a}, Integer{b}, Integer{c}, Integer{d}); });
        o.add("ok", r.has_value());
        if (r)
            o.add("lo", big(r->first.raw_value)).add("hi", big(r->second.raw_value));
        out(o);
        auto s = attempt([&] { return square_bounds(Integer{a}, Integer{b}); });
        auto p = ev("sbounds").add("a", big(a)).add("b", big(b)).add("ok", s.has_value());
        if (s)
            p.add("lo", big(s->first.raw_value)).add("hi", big(s->second.raw_value));
        out(p);
    };
    auto small = [&](long long a, long long b, long long c, long long d) {
        out.next();
        progress("filter " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c) + " " + std::to_string(d));
        auto [lo, hi] = square_filter(Integer{a}, Integer{b}, Integer{c}, Integer{d});
        out(ev("sfilter").add("xlo", a).add("xhi", b).add("zlo", c).add("zhi", d).add("lo", lo.raw_value).add("hi", hi.raw_value));
        auto q = quotient_filter(Integer{a}, Integer{b}, Integer{c}, Integer{d});
        using K = QuotientFilter::Kind;
        out(ev("qfilter").add("ymin", a).add("ymax", b).add("zmin", c).add("zmax", d).add("kind", q.kind == K::NoFilter ? "none" : q.kind == K::EmptyBecauseYZero ? "empty" : "bounds").add("lo", q.lo.raw_value).add("hi", q.hi.raw_value));
    };
    int r = args.thorough ? 5 : 3;
    for (int a = -r; a <= r; ++a)
        for (int b = a; b <= r; ++b)
            for (int c = -r; c <= r; ++c)
                for (int d = c; d <= r; ++d) {
                    boxed(a, b, c, d);
                    small(a, b, c, d);
                }
    for (int i = 0; i < n * 2; ++i) {
        auto a = value(), b = value(), c = value(), d = value();
        if (rng.chance(1, 2))
            boxed(std::min(a, b), std::max(a, b), std::min(c, d), std::max(c, d));
        auto k = [&](int m) { return rng.in(-m, m); };
        auto e = k(12), f = k(12), g = k(150), h = k(150);
        small(std::min(e, f), std::max(e, f), std::min(g, h), std::max(g, h));
    }

    // the raw operations at each width
    for (int i = 0; i < n; ++i) {
        out.next();
        raw<int>(out, rng, "i32");
        raw<unsigned>(out, rng, "u32");
        raw<long long>(out, rng, "i64");
        raw<unsigned long long>(out, rng, "u64");
    }

    // a register updated in place
    Shards regs(args.out, "register", args.shards);
    for (int session = 0; session < (args.thorough ? 600 : 80); ++session) {
        regs.next();
        Integer x{value()};
        regs(ev("load").add("v", big(x.raw_value)));
        for (int i = 0; i < 30; ++i) {
            if (rng.chance(1, 8)) {
                x = Integer{value()};
                regs(ev("load").add("v", big(x.raw_value)));
            }
            auto before = x;
            auto b = Integer{rng.chance(1, 3) ? (rng.chance(1, 2) ? LLONG_MAX : LLONG_MIN) - (x.raw_value == LLONG_MIN || x.raw_value == LLONG_MAX ? 0 : 0) : value()};
            if (rng.chance(1, 4) && x.raw_value != LLONG_MIN && x.raw_value != LLONG_MAX)
                b = Integer{x.raw_value > 0 ? LLONG_MAX - x.raw_value + rng.in(0, 1) : LLONG_MIN - x.raw_value - (x.raw_value < 0 ? rng.in(0, 1) : 0)};
            auto done = [&](Obj o, const std::optional<Integer> & ret) {
                o.add("before", big(before.raw_value)).add("ok", ret.has_value());
                if (ret)
                    o.add("after", big(x.raw_value)).add("ret", big(ret->raw_value));
                regs(o);
                if (! ret) { // what an operation that failed leaves behind is not specified
                    x = before;
                    regs(ev("load").add("v", big(x.raw_value)));
                }
            };
            switch (rng.in(0, 5)) {
            case 0: done(ev("iadd").add("b", big(b.raw_value)), attempt([&] { return x += b; })); break;
            case 1: done(ev("isub").add("b", big(b.raw_value)), attempt([&] { return x -= b; })); break;
            case 2: done(ev("preinc"), attempt([&] { return ++x; })); break;
            case 3: done(ev("predec"), attempt([&] { return --x; })); break;
            case 4: done(ev("postinc"), attempt([&] { return x++; })); break;
            default: done(ev("postdec"), attempt([&] { return x--; })); break;
            }
        }
    }
}
