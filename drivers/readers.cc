// Records readings of data and instance files, for ReaderTrace.tla.
#include "common.hh"
#include <examples/dzn.hh>
#include <examples/p_dispersion/p_dispersion_instance.hh>
#include <examples/rcpsp/rcpsp_instance.hh>
#include <examples/table_layout/table_layout_instance.hh>

#include <functional>
#include <set>

using namespace verif;

namespace
{
    std::string path;

    auto bigs(const std::vector<long long> & v) -> J
    {
        std::vector<J> r;
        for (auto & x : v)
            r.push_back(big(x));
        return J{r};
    }

    auto ints(const std::vector<gcs::Integer> & v) -> J
    {
        std::vector<J> r;
        for (auto & x : v)
            r.push_back(big(x.raw_value));
        return J{r};
    }

    template <typename V_, typename F_>
    auto each(const V_ & v, F_ f) -> J
    {
        std::vector<J> r;
        for (auto & x : v)
            r.push_back(f(x));
        return J{r};
    }

    auto file(Shards & out, const std::string & text) -> void
    {
        {
            std::ofstream f(path, std::ios::binary);
            f << text;
        }
        out(ev("file").add("text", codes(text)));
    }

    auto gets(Shards & out, const std::vector<std::string> & names) -> void
    {
        std::optional<dzn::Data> d;
        try {
            d = dzn::read(path);
        }
        catch (const std::exception &) {
        }
        out(ev("open").add("ok", bool(d)));
        if (! d)
            return;
        for (auto & n : names) {
            out(ev("contains").add("name", codes(n)).add("r", d->contains(n)));
            auto attempt = [&](const char * how, auto f) {
                auto e = ev("get").add("name", codes(n)).add("how", how);
                try {
                    J v = f();
                    e.add("ok", true).add("v", v);
                }
                catch (const std::exception &) {
                    e.add("ok", false);
                }
                out(e);
            };
            attempt("integer", [&] { return big(d->integer(n)); });
            attempt("integers", [&] { return bigs(d->integers(n)); });
            attempt("bools", [&] { return J{d->bools(n)}; });
            attempt("matrix", [&] { return each(d->matrix(n), bigs); });
            attempt("sets", [&] { return each(d->sets(n), bigs); });
        }
    }

    auto num(Rng & rng, long long lo, long long hi) -> std::string
    {
        auto v = rng.in(lo, hi);
        if (rng.chance(1, 30))
            return "+" + std::to_string(v < 0 ? -v : v);
        if (rng.chance(1, 40))
            return v < 0 ? std::to_string(v) : "0" + std::to_string(v);
        return std::to_string(v);
    }

    auto wild(Rng & rng) -> std::string
    {
        static const std::vector<std::string> w{"9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "4294967297",
            "2147483648", "99999999999999999999", "-", "+", "1-2", "0x3", "3.5", "abc", "--1", "1e2", "-0", "007"};
        return rng.pick(w);
    }

    auto gap(Rng & rng) -> std::string
    {
        static const std::vector<std::string> g{"", "", " ", " ", "\n", "\t", "  ", "\r\n", " % a comment, [3] = 2;\n", "%\n", " \v", "\f"};
        return rng.pick(g);
    }

    auto thin(Rng & rng) -> std::string
    {
        static const std::vector<std::string> g{"", "", "", " ", "\n", "  "};
        return rng.pick(g);
    }

    auto list(Rng & rng, const std::vector<long long> & v) -> std::string
    {
        std::string r = "[";
        if (rng.chance(1, 6))
            r = "array1d(1.." + std::to_string(v.size()) + ", [";
        bool wrapped = r.size() > 1;
        for (std::size_t i = 0; i < v.size(); ++i)
            r += (i ? "," : "") + thin(rng) + std::to_string(v[i]) + thin(rng);
        if (rng.chance(1, 10))
            r += ",";
        return r + "]" + (wrapped ? ")" : "");
    }

    auto matrix(Rng & rng, const std::vector<std::vector<long long>> & m) -> std::string
    {
        std::string r = "[" + thin(rng) + "|";
        for (std::size_t i = 0; i < m.size(); ++i) {
            r += i ? "|" : "";
            for (std::size_t j = 0; j < m[i].size(); ++j)
                r += (j ? "," : "") + thin(rng) + std::to_string(m[i][j]);
            r += thin(rng);
        }
        return r + "|" + thin(rng) + "]";
    }

    auto sets(Rng & rng, const std::vector<std::vector<long long>> & m) -> std::string
    {
        std::string r = "[";
        for (std::size_t i = 0; i < m.size(); ++i) {
            r += i ? "," : "";
            r += thin(rng) + "{";
            for (std::size_t j = 0; j < m[i].size(); ++j)
                r += (j ? "," : "") + thin(rng) + std::to_string(m[i][j]);
            r += thin(rng) + "}";
        }
        return r + thin(rng) + "]";
    }

    auto assemble(Rng & rng, std::vector<std::pair<std::string, std::string>> st) -> std::string
    {
        rng.shuffle(st);
        if (rng.chance(1, 12) && ! st.empty())
            st.erase(st.begin() + rng.in(0, static_cast<long long>(st.size()) - 1));
        if (rng.chance(1, 12) && ! st.empty())
            st.push_back(rng.pick(st));
        std::string t = gap(rng);
        for (std::size_t i = 0; i < st.size(); ++i) {
            t += st[i].first + gap(rng) + "=" + gap(rng) + st[i].second + gap(rng);
            if (i + 1 < st.size() || rng.chance(3, 4))
                t += ";";
            t += gap(rng);
            if (rng.chance(1, 15))
                t += "output [show(3)];";
            if (rng.chance(1, 15))
                t += ";";
            if (rng.chance(1, 20))
                t += "extra = 4;";
        }
        return t;
    }

    auto mutate(Rng & rng, std::string t, std::size_t from, const std::string & alphabet) -> std::string
    {
        for (auto n = rng.in(1, 2); n > 0 && t.size() > from; --n) {
            auto p = static_cast<std::size_t>(rng.in(static_cast<long long>(from), static_cast<long long>(t.size()) - 1));
            switch (rng.in(0, 5)) {
            case 0: t.erase(p, 1); break;
            case 1: t.insert(p, 1, rng.pick(alphabet)); break;
            case 2: t[p] = rng.pick(alphabet); break;
            case 3: t.insert(p, 1, t[p]); break;
            case 4: t.resize(p); break;
            case 5:
                // another number in place of one
                if (std::isdigit(static_cast<unsigned char>(t[p]))) {
                    auto e = p;
                    while (e < t.size() && std::isdigit(static_cast<unsigned char>(t[e])))
                        ++e;
                    t.replace(p, e - p, std::to_string(rng.in(0, 6)));
                }
                break;
            }
        }
        return t;
    }

    const std::string dzn_chars = "0123456789,;|[]{}=-% \n.ax";

    auto plain(Shards & out, Rng & rng) -> void
    {
        static const std::vector<std::string> names{"a", "b", "a_b", "n n", "x1"};
        std::vector<std::pair<std::string, std::string>> st;
        auto value = [&]() -> std::string {
            auto small = [&] { return rng.in(-3, 12); };
            std::vector<long long> v;
            for (auto n = rng.in(0, 4); n > 0; --n)
                v.push_back(small());
            std::vector<std::vector<long long>> m;
            auto w = rng.in(0, 3);
            for (auto n = rng.in(0, 3); n > 0; --n) {
                m.emplace_back();
                for (auto k = rng.chance(1, 8) ? rng.in(0, 3) : w; k > 0; --k)
                    m.back().push_back(small());
            }
            switch (rng.in(0, 8)) {
            case 0: return num(rng, -20, 20);
            case 1: return wild(rng);
            case 2: return list(rng, v);
            case 3: return matrix(rng, m);
            case 4: return sets(rng, m);
            case 5: return "[" + wild(rng) + "," + num(rng, -3, 3) + "]";
            case 6: return "[" + num(rng, -3, 3) + "," + wild(rng) + "]";
            case 7: {
                static const std::vector<std::string> b{"true", "false", "1", "0", "True", "2", "tru", "truefalse"};
                std::string s = "[";
                for (auto n = rng.in(0, 4); n > 0; --n)
                    s += rng.pick(b) + (rng.chance(1, 9) ? " " : ",");
                return s + "]";
            }
            default: return "[{" + num(rng, 1, 3) + "}, {" + wild(rng) + "}]";
            }
        };
        for (auto n = rng.in(1, 4); n > 0; --n)
            st.emplace_back(rng.pick(names), value());
        auto t = assemble(rng, st);
        if (rng.chance(1, 2))
            t = mutate(rng, t, 0, dzn_chars);
        file(out, t);
        gets(out, names);
    }

    // Short values over the characters that matter.
    auto tiny(Shards & out, Rng & rng) -> void
    {
        static const std::string chars = "[]|,1-{} 2";
        std::string v;
        for (auto n = rng.in(0, 7); n > 0; --n)
            v += rng.pick(chars);
        if (rng.chance(2, 3))
            v = "[" + v + "]";
        if (rng.chance(1, 6))
            v = "[|" + v + "|]";
        file(out, "a=" + v + (rng.chance(1, 2) ? ";" : ""));
        gets(out, {"a"});
    }

    auto rcpsp_event(const char * name, const std::function<auto()->rcpsp::Instance> & read) -> Obj
    {
        auto e = ev(name);
        try {
            auto i = read();
            std::vector<J> prec, lags;
            for (auto & [a, b] : i.precedences)
                prec.push_back(arr({J{a}, J{b}}));
            for (auto & l : i.lags)
                lags.push_back(arr({big(l.from), big(l.to), big(l.d.raw_value)}));
            e.add("ok", true).add("n", i.n_tasks).add("d", ints(i.durations)).add("rc", ints(i.capacities)).add("rr", each(i.demands, ints)).add("prec", J{prec}).add("lags", J{lags}).add("machine", J{i.machine_tasks}).add("source", i.source_task ? *i.source_task : -1);
        }
        catch (const std::exception &) {
            e.add("ok", false);
        }
        return e;
    }

    auto tweak(Rng & rng, long long v) -> long long
    {
        return rng.chance(1, 60) ? rng.in(-2, 8) : rng.chance(1, 200) ? v + 4294967296ll : v;
    }

    auto rcpsp_dzn_event(Shards & out) -> void
    {
        Obj k;
        for (auto & s : {"n_tasks", "n_res", "rc", "d", "rr", "suc"})
            k.add(s, codes(s));
        out(rcpsp_event("rcpsp", [] { return rcpsp::read_dzn_file(path); }).add("keys", k));
    }

    auto rcpsp_dzn(Shards & out, Rng & rng) -> void
    {
        auto n = rng.in(1, 4), r = rng.in(0, 3);
        std::vector<long long> d, rc;
        std::vector<std::vector<long long>> rr, suc;
        for (int i = 0; i < n; ++i)
            d.push_back(tweak(rng, rng.in(1, 9)));
        for (int i = 0; i < r; ++i) {
            rc.push_back(rng.in(1, 9));
            rr.emplace_back();
            for (int j = 0; j < n; ++j)
                rr.back().push_back(tweak(rng, rng.in(0, 5)));
        }
        for (int i = 1; i <= n; ++i) {
            suc.emplace_back();
            for (int j = i + 1; j <= n; ++j)
                if (rng.chance(1, 2))
                    suc.back().push_back(tweak(rng, j));
        }
        if (rng.chance(1, 20))
            suc.pop_back();
        if (rng.chance(1, 20))
            d.push_back(2);
        auto t = assemble(rng, {{"n_tasks", std::to_string(tweak(rng, n))}, {"n_res", std::to_string(tweak(rng, r))}, {"rc", list(rng, rc)}, {"d", list(rng, d)},
                                   {"rr", matrix(rng, rr)}, {"suc", sets(rng, suc)}});
        if (rng.chance(1, 3))
            t = mutate(rng, t, 0, dzn_chars);
        file(out, t);
        rcpsp_dzn_event(out);
    }

    auto table_dzn(Shards & out, Rng & rng) -> void
    {
        auto rows = rng.in(1, 3), cols = rng.in(1, 3), m = rng.in(1, 3);
        std::vector<long long> w, h;
        for (auto i = rows * cols * m; i > 0; --i) {
            w.push_back(rng.chance(1, 4) ? -1 : rng.in(0, 9));
            h.push_back(rng.chance(1, 6) ? rng.in(-2, 9) : w.back() < 0 ? -1 : rng.in(0, 9));
        }
        if (rng.chance(1, 15))
            w.pop_back();
        if (rng.chance(1, 15))
            h.push_back(3);
        auto wrap = [&](const std::vector<long long> & v) { return rng.chance(1, 2) ? "array3d(ROWS, COLS, CONFIGS, " + list(rng, v) + ")" : list(rng, v); };
        auto t = assemble(rng, {{"pixelwidth", num(rng, 0, 100)}, {"maxconfig", std::to_string(tweak(rng, m))}, {"rows", std::to_string(tweak(rng, rows))},
                                   {"cols", std::to_string(tweak(rng, cols))}, {"width", wrap(w)}, {"height", wrap(h)}});
        if (rng.chance(1, 3))
            t = mutate(rng, t, 0, dzn_chars);
        file(out, t);
        Obj k;
        for (auto & s : {"pixelwidth", "maxconfig", "rows", "cols", "width", "height"})
            k.add(s, codes(s));
        auto e = ev("table").add("keys", k);
        try {
            auto i = table_layout::read_dzn(path);
            auto shape = [](const std::vector<std::vector<std::vector<long>>> & v) {
                return each(v, [](const auto & a) { return each(a, [](const auto & b) { return each(b, [](long x) { return big(x); }); }); });
            };
            std::vector<J> legal;
            for (int r = 0; r < i.rows; ++r) {
                std::vector<J> row;
                for (int c = 0; c < i.cols; ++c)
                    row.push_back(each(table_layout::legal_configurations(i, r, c),
                        [](const auto & x) { return arr({J{std::get<0>(x)}, big(std::get<1>(x)), big(std::get<2>(x))}); }));
                legal.push_back(J{row});
            }
            e.add("ok", true).add("sizes", std::vector<int>{i.rows, i.cols, i.maxconfig}).add("pw", big(i.pixelwidth)).add("w", shape(i.width)).add("h", shape(i.height)).add("legal", J{legal});
            try {
                auto x = table_layout::extents(i);
                e.add("eok", true).add("ext", arr({big(x.min_width), big(x.max_width), big(x.min_height), big(x.max_height)}));
            }
            catch (const std::exception &) {
                e.add("eok", false);
            }
        }
        catch (const std::exception &) {
            e = ev("table").add("keys", k).add("ok", false);
        }
        out(e);
    }

    auto sch(Shards & out, Rng & rng) -> void
    {
        auto real = rng.in(1, 3), g = rng.in(0, 2);
        auto n = real + 2;
        std::string t = rng.chance(1, 10) ? "\n \n" : "";
        static const std::vector<std::string> tails{" 0 0", "\t0\t0", " 0", "", " 0 0", " 0 0"};
        static const std::vector<std::string> odd{" 0 1", " 1 0", " 0 0 0", " x", " 0 x", " -"};
        t += std::to_string(tweak(rng, real)) + " " + std::to_string(tweak(rng, g)) + (rng.chance(1, 10) ? rng.pick(odd) : rng.pick(tails)) + "\n";
        auto head = t.size();
        auto sep = [&] { return rng.chance(1, 2) ? "\t" : " "; };
        for (int i = 0; i < n; ++i) {
            std::vector<long long> to;
            for (int j = 0; j < n; ++j)
                if (j != i && rng.chance(1, 3))
                    to.push_back(tweak(rng, j));
            t += std::to_string(tweak(rng, i)) + sep() + std::to_string(rng.chance(1, 100) ? 2 : 1) + sep() + std::to_string(to.size());
            for (auto & x : to)
                t += sep() + std::to_string(x);
            for (std::size_t k = 0; k < to.size(); ++k)
                t += sep() + std::string("[") + std::to_string(rng.in(-9, 9)) + "]";
            t += "\n";
        }
        for (int i = 0; i < n; ++i) {
            t += std::to_string(i) + sep() + "1" + sep() + std::to_string(rng.chance(1, 60) ? -1 : rng.in(0, 9));
            for (int k = 0; k < g; ++k)
                t += sep() + std::to_string(rng.chance(1, 60) ? -1 : rng.in(0, 5));
            t += "\n";
        }
        for (int k = 0; k < g; ++k)
            t += (k ? sep() : "") + std::to_string(rng.chance(1, 60) ? -1 : rng.in(0, 9));
        t += "\n";
        if (rng.chance(1, 3))
            t = mutate(rng, t, head, "0123456789 \n[]-x");
        file(out, t);
        out(rcpsp_event("sch", [] { return rcpsp::read_file(path); }));
    }

    auto disp_event() -> Obj
    {
        auto e = ev("disp");
        try {
            auto i = p_dispersion::read_file(path);
            e.add("ok", true).add("n", i.n).add("dist", each(i.distance, ints)).add("p", i.p ? *i.p : -1);
            e.add("reqs", each(i.reqs, [](const auto & row) { return each(row, [](long x) { return big(x); }); }));
            e.add("largest", big(p_dispersion::max_distance(i).raw_value));
        }
        catch (const std::exception &) {
            e.add("ok", false);
        }
        return e;
    }

    auto disp(Shards & out, Rng & rng) -> void
    {
        auto n = rng.in(1, 5), p = rng.in(2, 4);
        auto style = rng.in(0, 3);
        std::string t = rng.chance(1, 10) ? "\n" : "";
        t += std::to_string(n);
        if (style == 0 || style == 1)
            t += " " + std::to_string(p);
        t += "\n";
        auto head = t.size();
        std::vector<long long> ids;
        bool scattered = rng.chance(1, 2);
        std::set<long long> used;
        while (static_cast<long long>(ids.size()) < n) {
            auto id = scattered ? rng.in(0, 60) : static_cast<long long>(ids.size());
            if (used.insert(id).second)
                ids.push_back(id);
        }
        std::vector<std::string> lines;
        auto value = [&] {
            auto v = std::to_string(rng.in(0, 99));
            if (rng.chance(1, 3))
                v += "." + std::to_string(rng.in(0, 99));
            if (rng.chance(1, 60))
                v = "-" + v;
            return v;
        };
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j) {
                auto a = ids[static_cast<std::size_t>(i)], b = ids[static_cast<std::size_t>(j)];
                if (rng.chance(1, 4))
                    std::swap(a, b);
                if (rng.chance(1, 60))
                    b = ids[0];
                lines.push_back(std::to_string(a) + " " + std::to_string(b) + " " + value());
            }
        if (rng.chance(1, 2))
            rng.shuffle(lines);
        for (auto & x : lines)
            t += x + "\n";
        if (style == 0) {
            for (int i = 0; i < p; ++i)
                for (int j = i + 1; j < p; ++j)
                    t += std::to_string(tweak(rng, i)) + " " + std::to_string(rng.chance(1, 30) ? rng.in(0, p) : j) + " " + std::to_string(rng.in(0, 9)) + "\n";
        }
        else if (style == 2)
            for (int i = 0; i < n; ++i)
                t += std::to_string(rng.in(0, 99)) + " " + value() + "\n";
        if (rng.chance(1, 4))
            t = mutate(rng, t, head, "0123456789 \n.-x");
        file(out, t);
        out(disp_event());
    }
}

auto main(int argc, char ** argv) -> int
{
    Args a(argc, argv);
    path = a.out + "/input.txt";
    Shards out(a.out, "readers", a.shards);
    Rng rng(a.seed);
    // One input of each kind listed as a known finding.
    file(out, "a = [1, 2, -];");
    gets(out, {"a"});
    file(out, "2\n0 1 5\nx 1\n");
    out(disp_event());
    file(out, "2 3\n0 1 5\n0 1 1\n0 1 2\n0 1 3\n");
    out(disp_event());
    for (auto & t : {"1 0 0 x\n0 1 0\n1 1 0\n2 1 0\n0 1 1\n1 1 1\n2 1 1\n", "1 0\n0 1 1 4294967297 [3]\n1 1 0\n2 1 0\n0 1 1\n1 1 1\n2 1 1\n",
             "1 1\n0 1 0\n1 1 0\n2 1 0\n0 1 1 -1\n1 1 1 1\n2 1 1 1\n4\n"}) {
        file(out, t);
        out(rcpsp_event("sch", [] { return rcpsp::read_file(path); }));
    }
    for (auto & [n, suc] : std::vector<std::pair<std::string, std::string>>{{"4294967297", "{}"}, {"2", "{4294967298}, {}"}}) {
        file(out, "n_tasks = " + n + "; n_res = 1; rc = [3]; d = [" + std::string(n == "2" ? "1,1" : "1") + "]; rr = [|" + std::string(n == "2" ? "1,1" : "1") + "|]; suc = [" + suc + "];");
        rcpsp_dzn_event(out);
    }
    out.next();
    auto rounds = a.thorough ? 4000 : 260;
    for (int i = 0; i < rounds; ++i) {
        plain(out, rng);
        for (int k = 0; k < 3; ++k)
            tiny(out, rng);
        for (int k = 0; k < 2; ++k) {
            rcpsp_dzn(out, rng);
            table_dzn(out, rng);
            sch(out, rng);
            disp(out, rng);
        }
        out.next();
    }
}
