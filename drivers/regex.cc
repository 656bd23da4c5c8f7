// Compiles regular expressions and records the automata, for RegexConf.tla.
#include "common.hh"

#include <gcs/constraints/regular/regex.hh>
#include <gcs/exception.hh>

#include <algorithm>
#include <map>
#include <set>

using namespace verif;
using std::string;
using std::vector;
using gcs::Integer;

namespace
{
    auto sym(Integer v) -> J
    {
        auto x = v.raw_value;
        if (x > -1000000000 && x < 1000000000)
            return arr({J{static_cast<long long>(x)}});
        vector<long long> parts;
        auto u = static_cast<unsigned long long>(x);
        while (u) {
            parts.insert(parts.begin(), static_cast<long long>(u % 1000000000ull));
            u /= 1000000000ull;
        }
        return J{parts};
    }

    auto syms(const vector<Integer> & v) -> J
    {
        vector<J> r;
        for (auto & x : v)
            r.push_back(sym(x));
        return J{r};
    }

    struct Gen
    {
        Rng & rng;
        int lo = 0, hi = 3;

        auto lit() -> string
        {
            return std::to_string(rng.in(0, std::max(hi + 1, 1)));
        }
        auto sp() -> string
        {
            return rng.chance(1, 4) ? " " : "";
        }
        auto cls() -> string
        {
            string r = "[";
            if (rng.chance(1, 3))
                r += sp() + "^";
            auto n = rng.in(1, 3);
            for (int i = 0; i < n; ++i) {
                r += (i ? " " : "") + lit();
                if (rng.chance(1, 3))
                    r += sp() + "-" + sp() + lit();
            }
            return r + sp() + "]";
        }
        auto atom(int depth) -> string
        {
            switch (rng.in(0, depth > 0 ? 6 : 3)) {
            case 0:
            case 1: return lit();
            case 2: return ".";
            case 3: return cls();
            default: return "(" + sp() + expr(depth - 1) + sp() + ")";
            }
        }
        auto factor(int depth) -> string
        {
            auto a = atom(depth);
            switch (rng.in(0, 9)) {
            case 0: return a + "*";
            case 1: return a + sp() + "+";
            case 2: return a + "?";
            case 3: return a + "{" + std::to_string(rng.in(0, 3)) + "}";
            case 4: return a + "{" + std::to_string(rng.in(0, 2)) + ",}";
            case 5: {
                auto n = rng.in(0, 2);
                return a + "{" + std::to_string(n) + sp() + "," + std::to_string(n + rng.in(0, 2)) + "}";
            }
            default: return a;
            }
        }
        auto term(int depth) -> string
        {
            string r = factor(depth);
            auto n = rng.in(0, 2);
            for (int i = 0; i < n; ++i)
                r += " " + factor(depth);
            return r;
        }
        auto expr(int depth) -> string
        {
            string r = term(depth);
            auto n = rng.in(0, 3) / 2;
            for (int i = 0; i < n; ++i)
                r += sp() + "|" + sp() + term(depth);
            return r;
        }
    };
}

auto main(int argc, char ** argv) -> int
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Shards out(args.out, "regex", args.shards);
    Progress progress(args.out);
    std::set<std::pair<string, vector<Integer>>> seen;

    auto record = [&](const string & re, const vector<Integer> & alphabet) {
        if (! seen.emplace(re, alphabet).second)
            return;
        progress("regex: " + re);
        Obj o;
        o.add("regex", codes(re)).add("text", re).add("alphabet", syms(alphabet));
        try {
            auto nfa = gcs::innards::regex_to_nfa(re, alphabet);
            vector<J> trans;
            std::set<Integer> symbols;
            for (auto & t : nfa.transitions) {
                std::map<Integer, std::set<long>> sorted(t.begin(), t.end());
                vector<J> row;
                for (auto & [s, targets] : sorted) {
                    symbols.insert(s);
                    row.push_back(arr({sym(s), J{vector<long>(targets.begin(), targets.end())}}));
                }
                trans.push_back(J{row});
            }
            vector<J> words;
            vector<Integer> pool(symbols.begin(), symbols.end());
            pool.push_back(Integer{77});
            for (int i = 0; i < 6; ++i) {
                vector<Integer> w;
                auto n = rng.in(0, 5);
                for (int k = 0; k < n; ++k)
                    w.push_back(rng.pick(pool));
                words.push_back(arr({syms(w), J{gcs::innards::regex_reference_accepts(re, alphabet, w) ? 1 : 0}}));
            }
            o.add("ok", true).add("n", nfa.num_states).add("trans", J{trans}).add("finals", J{nfa.final_states}).add("words", J{words});
        }
        catch (const gcs::InvalidProblemDefinitionException &) {
            o.add("ok", false);
        }
        out(o);
        out.next();
    };

    auto contiguous = [](long long lo, long long hi) {
        vector<Integer> r;
        for (auto v = lo; v <= hi; ++v)
            r.push_back(Integer{v});
        return r;
    };

    // Every short token string.
    const vector<string> tokens{"1", "2", "|", "*", "+", "?", "(", ")", ".", "{", "}", ",", "[", "]", "-", "^"};
    auto sigma = contiguous(0, 2);
    record("", sigma);
    record(" \t\n", sigma);
    auto max_len = args.thorough ? 4 : 3;
    auto enumerate = [&](auto && self, const string & prefix, int left) -> void {
        for (auto & t : tokens) {
            auto s = prefix.empty() ? t : prefix + " " + t;
            record(s, sigma);
            if (left > 1)
                self(self, s, left - 1);
        }
    };
    enumerate(enumerate, "", max_len);

    // Hand-chosen shapes: deep nesting, empty alphabets, nested repetition,
    // literals at the edge of the integer range, stray characters.
    for (auto s : {"((((1))))", "(1*)*", "(1?)*", "((1|2)*3)*", "(1*|2*)*", "(1{2}){3}", "(1{0})*", "1{0}", "1{0,0}", "(1|2){2,4} 3?", "[0-3]*", "[3-0 2]",
             "[^0-1]+", "[^ 0 1 2]", ".*1.*", ".* 1 . .", "(.1)|(1.)", "12 34", "012", "0012|12", "1 2|3 4|5", "1|2*|3", "1{2,3}{2}", "1**", "1+?", "1{,3}",
             "1{a}", "-1", "[--1]", "[1-2-3]", "[1^]", "[^]", "[^^1]", "1 | ", "| 1", "()", "(|1)", "1)", "((1)", "1{3,1}", "1{1 2}", "a", "1&2", "1\r2", "1\v",
             "1.2", "1,2", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999", "000000000000000000000007",
             "1 9223372036854775808", "[9223372036854775808]", "1{18446744073709551617}", "1{1,18446744073709551618}", "9223372036854775806 1", "1000000000", "999999999 | 1000000000", "12345678901234567890",
             "(1 2)+ (1|2)? [^1]", "((1 2?)* | (2 1)*){2,} 1"})
        for (auto & a : {contiguous(0, 3), contiguous(0, -1), contiguous(-2, 1), contiguous(5, 5), vector<Integer>{Integer{2}, Integer{0}, Integer{2}}})
            record(s, a);

    // Random well-formed expressions, and damaged ones.
    auto n = args.thorough ? 6000 : 900;
    for (int i = 0; i < n; ++i) {
        Gen g{rng};
        g.lo = static_cast<int>(rng.in(-1, 1));
        g.hi = static_cast<int>(g.lo + rng.in(0, 3));
        auto alphabet = contiguous(g.lo, g.hi);
        auto s = g.expr(args.thorough ? 3 : 2);
        if (s.size() > 60)
            continue;
        record(s, alphabet);
        if (rng.chance(1, 3)) {
            auto d = s;
            auto at = static_cast<std::size_t>(rng.in(0, static_cast<long long>(d.size()) - 1));
            switch (rng.in(0, 2)) {
            case 0: d.erase(at, 1); break;
            case 1: d.insert(at, rng.pick(tokens)); break;
            default: d[at] = rng.pick(string{"|*+?(){}[],.-^ 0123"}); break;
            }
            // A damaged count must stay small enough to expand.
            bool small = true;
            for (std::size_t k = 0, run = 0; k < d.size(); ++k) {
                run = isdigit(static_cast<unsigned char>(d[k])) ? run + 1 : 0;
                if (run > 1)
                    small = false;
            }
            if (small)
                record(d, alphabet);
        }
    }
    return 0;
}
