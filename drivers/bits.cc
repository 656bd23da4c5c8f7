// Records binary encodings of variable ranges, for BitsTrace.tla.
#include "common.hh"
#include <gcs/innards/integer_overflow.hh>
#include <gcs/innards/proofs/bits_encoding.hh>
#include <gcs/exception.hh>
#include <climits>
using namespace verif;
using gcs::Integer;
using namespace gcs::innards;

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Progress progress(args.out);
    Shards out(args.out, "bits", args.shards);
    auto go = [&](long long lo, long long hi) {
        if (lo > hi)
            std::swap(lo, hi);
        out.next();
        progress(std::to_string(lo) + " " + std::to_string(hi));
        out(ev("fits").add("lower", big(lo)).add("upper", big(hi)).add("r", bits_encoding_fits(Integer{lo}, Integer{hi})));
        auto base = [&](const char * e) { return ev(e).add("lower", big(lo)).add("upper", big(hi)); };
        try {
            auto [shift, coeff, neg] = get_bits_encoding_coeffs(Integer{lo}, Integer{hi});
            out(base("encode").add("shift", shift.raw_value).add("coeff", big(coeff.raw_value)).add("neg", big(neg.raw_value)));
            if (lo >= -140 && hi <= 140)
                out(ev("small").add("lower", lo).add("upper", hi).add("shift", shift.raw_value).add("neg", neg.raw_value));
        }
        catch (const gcs::UnimplementedException &) {
            out(base("refuse"));
        }
        catch (const IntegerOverflow &) {
            out(base("refuse"));
        }
    };
    int box = args.thorough ? 40 : 17;
    for (int lo = -box; lo <= box; ++lo)
        for (int hi = lo; hi <= box; ++hi)
            go(lo, hi);
    // around powers of two
    std::vector<long long> edges{LLONG_MIN, LLONG_MIN + 1, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN / 2, LLONG_MIN / 2 - 1, LLONG_MIN / 2 + 1, LLONG_MAX / 2, LLONG_MAX / 2 + 1, 0, 1, -1};
    for (int k : {7, 15, 31, 32, 47, 61, 62})
        for (int d : {-1, 0, 1}) {
            edges.push_back((1ll << k) + d);
            edges.push_back(-(1ll << k) + d);
        }
    for (auto a : edges)
        for (auto b : edges)
            if (a <= b)
                go(a, b);
    for (int i = 0, n = args.thorough ? 12000 : 900; i < n; ++i) {
        auto r = [&]() { return static_cast<long long>(rng.next()) >> rng.in(0, 63); };
        go(r(), r());
        if (rng.chance(1, 3))
            go(rng.in(-140, 140), rng.in(-140, 140));
        auto k = rng.in(1, 62);
        go(-(1ll << k) + rng.in(-2, 2), (1ll << rng.in(0, 62)) + rng.in(-2, 2));
    }
}
