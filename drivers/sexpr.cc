// Reads and prints s-expressions, for SExprTrace.tla.
#include "common.hh"
#include <gcs/innards/s_expr.hh>
#include <format>
#include <functional>
using namespace verif;
using namespace gcs::innards;
using std::string;

namespace
{
    auto term(const SExpr & e) -> J
    {
        if (e.is_atom())
            return arr({"a", codes(e.as_atom())});
        std::vector<J> r;
        for (auto & c : e.as_list())
            r.push_back(term(c));
        return arr({"l", J{r}});
    }

    const string white = " \t\n\r\f\v";

    struct Gen
    {
        Rng & rng;
        auto atom() -> string
        {
            static const std::vector<string> fixed{"x", "_1", "-3", ">=", "all_different", "0", "a,b", "\"q\"", ";", "'", "#t", "[", "]", "{}", "%", "\x01", "\xc3\xa9", "\x80", "a.b", "|", "\\", "{", "}"};
            if (rng.chance(2, 3))
                return rng.pick(fixed);
            string r;
            auto n = rng.in(1, 6);
            while (static_cast<long long>(r.size()) < n) {
                char c = static_cast<char>(rng.in(1, 255));
                if (c != '(' && c != ')' && white.find(c) == string::npos)
                    r += c;
            }
            return r;
        }
        auto ws(bool need) -> string
        {
            string r;
            auto n = rng.in(need ? 1 : 0, rng.chance(1, 3) ? 3 : 1);
            for (int i = 0; i < n; ++i)
                r += white[static_cast<std::size_t>(rng.in(0, 5))];
            return r;
        }
        // text of a term, with arbitrary white space
        auto text(int depth) -> string
        {
            if (depth == 0 || rng.chance(1, 2))
                return atom();
            string r = "(" + ws(false);
            auto n = rng.in(0, 4);
            for (int i = 0; i < n; ++i) {
                auto t = text(depth - 1);
                bool need = ! r.empty() && r.back() != '(' && r.back() != ')' && white.find(r.back()) == string::npos && t[0] != '(';
                r += ws(need) + t;
            }
            return r + ws(false) + ")";
        }
        auto junk() -> string
        {
            static const string alphabet = "()() ab-\t\n0";
            string r;
            auto n = rng.in(0, 12);
            for (int i = 0; i < n; ++i)
                r += alphabet[static_cast<std::size_t>(rng.in(0, static_cast<long long>(alphabet.size()) - 1))];
            return r;
        }
        auto make(int depth) -> SExpr
        {
            if (depth == 0 || rng.chance(2, 5)) {
                if (rng.chance(1, 12)) // not printable, but still a value
                    return SExpr::atom(rng.chance(1, 2) ? "" : "a b");
                return rng.chance(1, 2) ? SExpr::atom(atom()) : SExpr{atom()};
            }
            std::vector<SExpr> v;
            auto n = rng.in(0, 4);
            for (int i = 0; i < n; ++i)
                v.push_back(make(depth - 1));
            return rng.chance(1, 2) ? SExpr::list(v) : SExpr{v};
        }
        // change exactly one thing
        auto change(const SExpr & e) -> SExpr
        {
            if (e.is_atom())
                return rng.chance(1, 3) ? SExpr::list({e}) : SExpr::atom(rng.chance(1, 2) ? e.as_atom() + "x" : atom());
            auto v = e.as_list();
            if (v.empty())
                return rng.chance(1, 2) ? SExpr::atom("") : SExpr::list({SExpr::list({})});
            auto i = static_cast<std::size_t>(rng.in(0, static_cast<long long>(v.size()) - 1));
            switch (rng.in(0, 4)) {
            case 0: v.erase(v.begin() + static_cast<long>(i)); break;
            case 1: v.insert(v.begin() + static_cast<long>(i), v[i]); break;
            case 2: std::swap(v[0], v[v.size() - 1]); break;
            default: v[i] = change(v[i]);
            }
            return SExpr::list(v);
        }
    };
}

int main(int argc, char ** argv)
{
    Args args(argc, argv);
    Rng rng(args.seed);
    Gen gen{rng};
    Progress progress(args.out);
    Shards out(args.out, "sexpr", args.shards);

    auto parse = [&](const string & text) {
        {
            auto o = ev("parse").add("text", codes(text));
            try {
                auto e = parse_s_expr(text);
                out(o.add("ok", true).add("term", term(e)));
            }
            catch (const SExprParseError &) {
                out(o.add("ok", false));
            }
        }
        auto o = ev("parseseq").add("text", codes(text));
        try {
            std::vector<J> ts;
            for (auto & e : parse_s_expr_seq(text))
                ts.push_back(term(e));
            out(o.add("ok", true).add("terms", ts));
        }
        catch (const SExprParseError &) {
            out(o.add("ok", false));
        }
    };
    auto print = [&](const SExpr & e) {
        auto text = std::format("{}", e);
        out(ev("print").add("term", term(e)).add("text", codes(text)).add("bare", codes(std::format("{:#}", e))).add("twice", codes(std::format("{}{}", e, e))));
        auto o = ev("roundtrip").add("term", term(e));
        try {
            o.add("back", term(parse_s_expr(text))).add("ok", true);
        }
        catch (const SExprParseError &) {
            o.add("ok", false);
        }
        out(o);
    };
    auto kind = [&](const SExpr & e) {
        auto attempt = [](auto f) {
            try {
                f();
                return true;
            }
            catch (const SExprParseError &) {
                return false;
            }
        };
        out(ev("kind").add("term", term(e)).add("isatom", e.is_atom()).add("islist", e.is_list()).add("asatom", attempt([&] { return e.as_atom().size(); })).add("aslist", attempt([&] { return e.as_list().size(); })));
    };

    // every text up to a length over an alphabet of the interesting characters
    {
        const std::vector<string> alphabets{"()a \n", "()a"};
        const std::vector<int> lens{args.thorough ? 6 : 4, args.thorough ? 8 : 6};
        for (std::size_t k = 0; k < alphabets.size(); ++k) {
            const auto & alphabet = alphabets[k];
            std::function<void(string, int)> go = [&](string s, int left) {
                out.next();
                parse(s);
                if (left > 0)
                    for (char c : alphabet)
                        go(s + c, left - 1);
            };
            go("", lens[k]);
        }
    }
    // every single byte, alone and inside a list
    for (int c = 0; c < 256; ++c) {
        out.next();
        string b(1, static_cast<char>(c));
        progress("byte " + std::to_string(c));
        parse(b);
        parse("(a" + b + "b)");
        parse("x" + b);
        parse(b + "(y)");
    }
    int n = args.thorough ? 20000 : 1500;
    for (int i = 0; i < n; ++i) {
        out.next();
        auto depth = static_cast<int>(rng.in(0, 4));
        auto text = gen.ws(false) + gen.text(depth) + gen.ws(false);
        progress("random text " + text);
        parse(text);
        if (rng.chance(1, 2))
            parse(text + gen.ws(true) + gen.text(2) + (rng.chance(1, 3) ? ")" : ""));
        if (rng.chance(1, 3) && ! text.empty()) { // damaged
            auto t = text;
            auto at = static_cast<std::size_t>(rng.in(0, static_cast<long long>(t.size()) - 1));
            if (rng.chance(1, 2))
                t.erase(at, 1);
            else
                t.insert(at, 1, rng.pick(string("() x")));
            parse(t);
        }
        parse(gen.junk());
        auto e = gen.make(static_cast<int>(rng.in(0, 4)));
        print(e);
        kind(e);
        auto d = rng.chance(1, 3) ? SExpr{e} : gen.change(e);
        out(ev("compare").add("x", term(e)).add("y", term(d)).add("eq", e == d).add("ne", e != d));
        // a copy that is then moved from still leaves the original alone
        auto copy = e;
        auto moved = std::move(copy);
        out(ev("compare").add("x", term(e)).add("y", term(moved)).add("eq", e == moved).add("ne", e != moved));
        copy = d;
        out(ev("compare").add("x", term(copy)).add("y", term(d)).add("eq", copy == d).add("ne", copy != d));
    }
    // deep nesting
    for (int depth : {10, 60}) {
        out.next();
        string s = string(static_cast<std::size_t>(depth), '(') + "a" + string(static_cast<std::size_t>(depth), ')');
        progress("deep");
        parse(s);
        parse(s + ")");
        parse("(" + s);
    }
}
