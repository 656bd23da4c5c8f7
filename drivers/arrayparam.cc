// Records the life of array parameters, for ArrayParamTrace.tla.
#include "common.hh"
#include <gcs/array_param.hh>
#include <gcs/extensional.hh>

#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>

using namespace verif;

namespace
{
    int next_id = 0, copies = 0;
    std::map<const void *, int> live;

    // A container that knows which of its objects exist and counts copies.
    struct Probe
    {
        using value_type = int;
        std::vector<int> data;
        Probe(std::initializer_list<int> l) : data(l)
        {
            live.emplace(this, ++next_id);
        }
        explicit Probe(std::vector<int> v) : data(std::move(v))
        {
            live.emplace(this, ++next_id);
        }
        Probe(const Probe & o) : data(o.data)
        {
            ++copies;
            live.emplace(this, ++next_id);
        }
        Probe(Probe && o) : data(std::move(o.data))
        {
            o.data = {-99};
            live.emplace(this, ++next_id);
        }
        auto operator=(const Probe & o) -> Probe &
        {
            ++copies;
            data = o.data;
            return *this;
        }
        auto operator=(Probe && o) -> Probe &
        {
            data = std::move(o.data);
            o.data = {-99};
            return *this;
        }
        ~Probe()
        {
            data = {-77};
            live.erase(this);
        }
    };

    using Param = gcs::ArrayParam<Probe>;
    constexpr int slots = 4, holders = 2;

    struct World
    {
        std::optional<Param> p[slots];
        std::shared_ptr<const Probe> shared[holders];
        std::optional<Probe> own[holders];

        auto id(const Probe * q) -> int
        {
            auto i = live.find(q);
            return i == live.end() ? -1 : i->second;
        }

        auto report(Shards & out, Obj e) -> void
        {
            std::vector<J> sl, sh, bo;
            for (auto & s : p) {
                if (! s)
                    sl.push_back(arr({J{0}, J{std::vector<int>{}}}));
                else {
                    const Probe & r = **s;
                    int i = id(&r);
                    if (&r != (*s).operator->() || i == -1)
                        sl.push_back(arr({J{-1}, J{std::vector<int>{}}}));
                    else
                        sl.push_back(arr({J{i}, J{(*s)->data}}));
                }
            }
            for (auto & s : shared)
                sh.push_back(s ? arr({J{id(s.get())}, J{s->data}}) : arr({J{0}, J{std::vector<int>{}}}));
            for (auto & s : own)
                bo.push_back(s ? arr({J{id(&*s)}, J{s->data}}) : arr({J{0}, J{std::vector<int>{}}}));
            std::vector<int> l;
            for (auto & [_, i] : live)
                l.push_back(i);
            std::sort(l.begin(), l.end());
            e.add("slots", J{sl}).add("shared", J{sh}).add("own", J{bo}).add("live", J{l}).add("copies", copies);
            out(e);
            copies = 0;
        }
    };

    auto session(Shards & out, Rng & rng, int length) -> void
    {
        World w;
        next_id = 0;
        copies = 0;
        w.report(out, ev("begin"));
        auto content = [&] {
            std::vector<int> v;
            for (auto n = rng.in(0, 3); n > 0; --n)
                v.push_back(static_cast<int>(rng.in(0, 9)));
            return v;
        };
        // a slot borrowing from a holder, by slot
        const Probe * borrowed[slots] = {};
        for (int step = 0; step < length; ++step) {
            int s = static_cast<int>(rng.in(0, slots - 1)), t = static_cast<int>(rng.in(0, slots - 1)), h = static_cast<int>(rng.in(0, holders - 1));
            switch (rng.in(0, 13)) {
            case 0: {
                auto c = content();
                Probe q{c};
                w.p[s].reset();
                w.p[s].emplace(std::move(q));
                borrowed[s] = nullptr;
                {
                    // the moved-from local goes before looking
                    q.~Probe();
                    new (&q) Probe(std::vector<int>{});
                }
                live.erase(&q);
                w.report(out, ev("moved").add("s", s + 1).add("c", c));
                live.emplace(&q, -5);
                break;
            }
            case 1: {
                auto c = content();
                w.own[h].reset();
                for (int i = 0; i < slots; ++i)
                    if (borrowed[i] == &*w.own[h] && w.p[i]) {
                        w.p[i].reset();
                        borrowed[i] = nullptr;
                    }
                w.own[h].emplace(c);
                w.report(out, ev("hold").add("h", h + 1).add("c", c));
                break;
            }
            case 2: {
                if (! w.own[h])
                    break;
                w.p[s].emplace(*w.own[h]);
                borrowed[s] = nullptr;
                w.report(out, ev("copied").add("s", s + 1).add("h", h + 1));
                break;
            }
            case 3: {
                w.p[s].emplace(std::initializer_list<int>{4, 5, 6});
                borrowed[s] = nullptr;
                w.report(out, ev("list").add("s", s + 1).add("c", std::vector<int>{4, 5, 6}));
                break;
            }
            case 4: {
                auto c = content();
                w.shared[h] = std::make_shared<const Probe>(c);
                w.report(out, ev("share").add("h", h + 1).add("c", c));
                break;
            }
            case 5: {
                w.shared[h].reset();
                w.report(out, ev("unshare").add("h", h + 1));
                break;
            }
            case 6: {
                if (! w.shared[h])
                    break;
                w.p[s].reset();
                w.p[s].emplace(w.shared[h]);
                borrowed[s] = nullptr;
                w.report(out, ev("fromshared").add("s", s + 1).add("h", h + 1));
                break;
            }
            case 7: {
                if (! w.own[h])
                    break;
                w.p[s].reset();
                w.p[s].emplace(&*w.own[h]);
                borrowed[s] = &*w.own[h];
                w.report(out, ev("borrow").add("s", s + 1).add("h", h + 1));
                break;
            }
            case 8: {
                if (! w.own[h])
                    break;
                auto c = content();
                w.own[h]->data = c;
                w.report(out, ev("write").add("h", h + 1).add("c", c));
                break;
            }
            case 9: {
                if (! w.p[s] || s == t)
                    break;
                w.p[t].reset();
                w.p[t].emplace(*w.p[s]);
                borrowed[t] = borrowed[s];
                w.report(out, ev("copy").add("s", s + 1).add("t", t + 1));
                break;
            }
            case 10: {
                if (! w.p[s] || ! w.p[t])
                    break;
                *w.p[t] = *w.p[s];
                borrowed[t] = borrowed[s];
                w.report(out, ev("copy").add("s", s + 1).add("t", t + 1));
                break;
            }
            case 11: {
                if (! w.p[s] || s == t)
                    break;
                w.p[t].reset();
                w.p[t].emplace(std::move(*w.p[s]));
                w.p[s].reset();
                borrowed[t] = borrowed[s];
                borrowed[s] = nullptr;
                w.report(out, ev("move").add("s", s + 1).add("t", t + 1));
                break;
            }
            case 12: {
                if (! w.p[s] || ! w.p[t] || s == t)
                    break;
                *w.p[t] = std::move(*w.p[s]);
                w.p[s].reset();
                borrowed[t] = borrowed[s];
                borrowed[s] = nullptr;
                w.report(out, ev("move").add("s", s + 1).add("t", t + 1));
                break;
            }
            case 13: {
                w.p[s].reset();
                borrowed[s] = nullptr;
                w.report(out, ev("drop").add("s", s + 1));
                break;
            }
            }
        }
        for (auto & s : w.p)
            s.reset();
        for (int h = 0; h < holders; ++h) {
            w.own[h].reset();
            w.shared[h].reset();
        }
        w.report(out, ev("end"));
    }

    // The tuples of a table, handed over every way there is.
    auto tuples(Shards & out, Rng & rng) -> void
    {
        using namespace gcs;
        SimpleTuples ts;
        std::vector<std::vector<long long>> want;
        for (auto n = rng.in(0, 3); n > 0; --n) {
            std::vector<Integer> t;
            std::vector<long long> w;
            for (auto m = rng.in(0, 3); m > 0; --m) {
                w.push_back(rng.in(-9, 9));
                t.push_back(Integer(w.back()));
            }
            ts.push_back(t);
            want.push_back(w);
        }
        auto seen = [&](const ExtensionalTuples & e) {
            std::vector<std::vector<long long>> r;
            std::visit(
                [&](const auto & p) {
                    for (auto & t : *p) {
                        r.emplace_back();
                        for (auto & x : t) {
                            if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Integer>)
                                r.back().push_back(x.raw_value);
                            else
                                r.back().push_back(std::holds_alternative<Wildcard>(x) ? 99 : std::get<Integer>(x).raw_value);
                        }
                    }
                },
                e);
            return r;
        };
        auto shared = std::make_shared<const SimpleTuples>(ts);
        ExtensionalTuples a{ArrayParam<SimpleTuples>{ts}}, b{ArrayParam<SimpleTuples>{shared}}, c{ArrayParam<SimpleTuples>{&ts}};
        out(ev("tuples").add("want", J{want}).add("got", J{seen(a)}));
        out(ev("tuples").add("want", J{want}).add("got", J{seen(b)}));
        out(ev("tuples").add("want", J{want}).add("got", J{seen(c)}));
        auto d = b;
        b = a;
        shared.reset();
        out(ev("tuples").add("want", J{want}).add("got", J{seen(d)}));
        WildcardTuples ws;
        auto ww = want;
        for (auto & t : ww) {
            ws.emplace_back();
            for (auto & x : t) {
                if (rng.chance(1, 3)) {
                    ws.back().push_back(Wildcard{});
                    x = 99;
                }
                else
                    ws.back().push_back(Integer(x));
            }
        }
        ExtensionalTuples e{ArrayParam<WildcardTuples>{ws}}, f{ArrayParam<WildcardTuples>{&ws}};
        auto g = e;
        e = a;
        out(ev("tuples").add("want", J{ww}).add("got", J{seen(g)}));
        out(ev("tuples").add("want", J{ww}).add("got", J{seen(f)}));
        out(ev("tuples").add("want", J{want}).add("got", J{seen(e)}));
    }
}

auto main(int argc, char ** argv) -> int
{
    Args a(argc, argv);
    Shards out(a.out, "arrayparam", a.shards);
    Rng rng(a.seed);
    auto rounds = a.thorough ? 6000 : 400;
    for (int i = 0; i < rounds; ++i) {
        session(out, rng, static_cast<int>(rng.in(5, 40)));
        tuples(out, rng);
        out.next();
    }
}
