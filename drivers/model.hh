#ifndef VERIF_DRIVERS_MODEL_HH
#define VERIF_DRIVERS_MODEL_HH

// Random small models over every kind of constraint: each constraint knows
// how to describe itself (JSON, read by Semantics.tla) and how to post itself.

#include "common.hh"

#include <gcs/constraints/at_most_one.hh>
#include <gcs/constraints/lex_smart_table.hh>
#include <gcs/constraints/nogoods/nogoods.hh>
#include <gcs/gcs.hh>
#include <gcs/innards/literal.hh>

#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <unordered_map>

namespace verif
{
    using gcs::Integer;
    using gcs::IntegerVariableCondition;
    using gcs::IntegerVariableID;
    using std::string;
    using std::vector;

    using Ids = vector<IntegerVariableID>;

    // c * a[v] + o, with v counted from 1 and 0 for the constant o
    struct Term
    {
        int v = 0;
        int c = 1;
        long long o = 0;
        auto json() const -> J
        {
            return arr({J{v}, J{v == 0 ? 1 : c}, J{o}});
        }
        auto id(const Ids & ids) const -> IntegerVariableID
        {
            if (v == 0)
                return gcs::constant_variable(Integer{o});
            auto x = ids.at(v - 1);
            if (c < 0)
                x = -x;
            if (o != 0)
                x = x + Integer{o};
            return x;
        }
        auto same_handle(const Term & t) const -> bool
        {
            return v == t.v && c == t.c && o == t.o;
        }
    };

    struct Lit
    {
        string op; // eq ne ge lt true false
        Term t;
        long long k = 0;
        auto json() const -> J
        {
            if (op == "true" || op == "false")
                return Obj{}.add("op", op);
            return Obj{}.add("op", op).add("t", t.json()).add("k", k);
        }
        auto cond(const Ids & ids) const -> IntegerVariableCondition
        {
            auto x = t.id(ids);
            if (op == "eq")
                return x == Integer{k};
            if (op == "ne")
                return x != Integer{k};
            if (op == "ge")
                return x >= Integer{k};
            return x < Integer{k};
        }
        auto literal(const Ids & ids) const -> gcs::innards::Literal
        {
            if (op == "true")
                return gcs::innards::TrueLiteral{};
            if (op == "false")
                return gcs::innards::FalseLiteral{};
            return cond(ids);
        }
    };

    inline auto terms_json(const vector<Term> & ts) -> J
    {
        vector<J> r;
        for (auto & t : ts)
            r.push_back(t.json());
        return J{r};
    }
    inline auto ids_of(const vector<Term> & ts, const Ids & ids) -> Ids
    {
        Ids r;
        for (auto & t : ts)
            r.push_back(t.id(ids));
        return r;
    }
    inline auto ints_of(const vector<long long> & v) -> vector<Integer>
    {
        vector<Integer> r;
        for (auto x : v)
            r.emplace_back(x);
        return r;
    }
    inline auto grid_of(const vector<vector<long long>> & v) -> vector<vector<Integer>>
    {
        vector<vector<Integer>> r;
        for (auto & x : v)
            r.push_back(ints_of(x));
        return r;
    }
    inline auto grid_json(const vector<vector<long long>> & v) -> J
    {
        vector<J> r;
        for (auto & x : v)
            r.push_back(J{x});
        return J{r};
    }

    // Posting goes through a sink, so that the same model can be posted with
    // or without names.
    struct Sink
    {
        std::function<void(const gcs::Constraint &)> post;
    };

    struct Con
    {
        string kind;
        Obj json;
        std::function<void(const Sink &, const Ids &)> post;
        string variant; // consistency level, algorithm, proof strategy
    };

    struct Model
    {
        vector<vector<long long>> doms;
        vector<bool> ranges; // created as lower..upper rather than as a list
        vector<Con> cons;
        long long product = 1;
        bool shared = false; // some variable occurs twice

        auto json(Obj & o) const -> void
        {
            vector<J> vs, cs;
            for (auto & d : doms)
                vs.push_back(J{d});
            for (auto & c : cons)
                cs.push_back(J{c.json});
            o.add("vars", vs).add("cons", cs);
        }
        auto describe() const -> string
        {
            string s;
            for (auto & c : cons)
                s += c.kind + "/" + c.variant + " ";
            Obj o;
            json(o);
            return s + o.str();
        }
        auto create(gcs::Problem & p) const -> Ids
        {
            Ids r;
            for (std::size_t i = 0; i < doms.size(); ++i) {
                if (ranges[i])
                    r.push_back(p.create_integer_variable(Integer{doms[i].front()}, Integer{doms[i].back()}, "v" + std::to_string(i + 1)));
                else
                    r.push_back(p.create_integer_variable(ints_of(doms[i]), "v" + std::to_string(i + 1)));
            }
            return r;
        }
    };

    struct Maker
    {
        Rng & rng;
        Model m;
        long long limit;
        bool constant_conditions = true;
        bool own_conditions = true;
        bool optional_tasks = false; // scheduling constraints always get presences, some of them bad
        int constants = 8; // one term in this many is a constant
        int reuse = 4;     // one term in this many is an existing variable
        int viewed = 4;    // one term in this many is a view

        Maker(Rng & r, long long l) : rng(r), limit(l)
        {
        }

        auto new_var(vector<long long> d) -> int
        {
            std::sort(d.begin(), d.end());
            d.erase(std::unique(d.begin(), d.end()), d.end());
            bool contiguous = d.back() - d.front() + 1 == static_cast<long long>(d.size());
            m.product *= static_cast<long long>(d.size());
            m.ranges.push_back(contiguous && ! rng.chance(1, 8));
            m.doms.push_back(d);
            return static_cast<int>(m.doms.size());
        }

        // values mostly within lo..hi
        auto domain(long long lo, long long hi) -> vector<long long>
        {
            long long room = std::max(1ll, limit / m.product);
            long long width = std::min({hi - lo + 1, room, 6ll});
            long long size = rng.chance(1, 10) ? 1 : rng.in(std::min(2ll, width), width);
            long long start = rng.in(lo, hi - size + 1);
            vector<long long> d;
            if (rng.chance(1, 3) && hi - lo + 1 > size) {
                // with holes
                vector<long long> all;
                for (long long x = lo; x <= hi; ++x)
                    all.push_back(x);
                rng.shuffle(all);
                d.assign(all.begin(), all.begin() + size);
            }
            else
                for (long long x = start; x < start + size; ++x)
                    d.push_back(x);
            return d;
        }

        // a term whose values are usually within lo..hi
        auto term(long long lo, long long hi, bool exact = false, bool constant_ok = true, bool view_ok = true) -> Term
        {
            if (constant_ok && rng.chance(1, constants))
                return {0, 1, rng.in(lo, hi)};
            bool can_make = m.product * 2 <= limit && m.doms.size() < 8;
            if (! m.doms.empty() && (! can_make || rng.chance(1, reuse))) {
                Term t;
                for (int tries = 0; tries < 6; ++tries) {
                    t = {static_cast<int>(rng.in(1, static_cast<long long>(m.doms.size()))), 1, 0};
                    auto & d = m.doms[t.v - 1];
                    if (view_ok && rng.chance(1, viewed)) {
                        t.c = rng.chance(1, 2) ? 1 : -1;
                        // move it into the range
                        long long low = t.c > 0 ? d.front() : -d.back();
                        t.o = rng.in(lo - low - (exact ? 0 : 1), lo - low + (exact ? 0 : 2));
                    }
                    long long low = (t.c > 0 ? d.front() : -d.back()) + t.o, high = (t.c > 0 ? d.back() : -d.front()) + t.o;
                    if (! exact || (low >= lo && high <= hi)) {
                        m.shared = true;
                        return t;
                    }
                }
                if (constant_ok)
                    return {0, 1, rng.in(lo, hi)};
            }
            auto d = domain(lo, hi);
            Term t{0, 1, 0};
            if (view_ok && rng.chance(1, viewed)) {
                t.c = rng.chance(1, 2) ? 1 : -1;
                t.o = rng.in(-3, 3);
                for (auto & x : d)
                    x = t.c * (x - t.o);
            }
            t.v = new_var(d);
            return t;
        }

        auto terms(int n, long long lo, long long hi, bool exact = false, bool constant_ok = true, bool view_ok = true) -> vector<Term>
        {
            vector<Term> r;
            for (int i = 0; i < n; ++i)
                r.push_back(term(lo, hi, exact, constant_ok, view_ok));
            return r;
        }

        // what says whether a task is there: often a constant, now and then
        // something that is not a presence at all
        auto presence() -> Term
        {
            if (rng.chance(1, 3))
                return {0, 1, rng.chance(1, 24) ? rng.pick(vector<long long>{-1, 2, 3}) : rng.in(0, 1)};
            if (rng.chance(1, 24))
                return term(rng.in(-1, 0), 2);
            return term(0, 1, true, false);
        }

        auto cond() -> Lit
        {
            Lit l;
            l.op = rng.pick(vector<string>{"eq", "ne", "ge", "lt"});
            if (constant_conditions && rng.chance(1, 16)) {
                l.t = {0, 1, rng.in(-1, 1)};
                l.k = rng.in(-1, 1);
                return l;
            }
            if (! m.doms.empty() && own_conditions && rng.chance(1, 4)) {
                // quite possibly one the constraint is over
                l.t = {static_cast<int>(rng.in(1, static_cast<long long>(m.doms.size()))), 1, 0};
                m.shared = true;
            }
            else if (rng.chance(1, 2) || m.doms.empty())
                l.t = term(0, 1, false, false);
            else
                l.t = term(-2, 3, false, false);
            auto & d = m.doms[l.t.v - 1];
            long long x = rng.chance(5, 6) ? rng.pick(d) : d.back() + rng.in(0, 1);
            l.k = l.t.c * x + l.t.o;
            return l;
        }
        auto lit() -> Lit
        {
            if (rng.chance(1, 6))
                return {rng.chance(1, 2) ? "true" : "false", {}, 0};
            return cond();
        }

        auto reif_json(const string & mode, const Lit & l) -> J
        {
            Obj o;
            o.add("m", mode);
            if (mode != "must" && mode != "mustnot")
                o.add("c", l.json());
            return o;
        }

        auto con(const string & kind) -> Con
        {
            Con c;
            c.kind = kind;
            c.json.add("k", kind);
            return c;
        }
    };

    using Generator = std::function<Con(Maker &)>;

    inline auto reif_of(const string & mode, const Lit & l, const Ids & ids) -> gcs::ReificationCondition
    {
        using namespace gcs;
        if (mode == "must")
            return reif::MustHold{};
        if (mode == "mustnot")
            return reif::MustNotHold{};
        if (mode == "if")
            return reif::If{l.cond(ids)};
        if (mode == "notif")
            return reif::NotIf{l.cond(ids)};
        return reif::Iff{l.cond(ids)};
    }

    inline auto pick_mode(Rng & rng) -> string
    {
        return rng.pick(vector<string>{"must", "mustnot", "if", "notif", "iff", "iff", "if", "must"});
    }

    inline auto generators() -> const std::map<string, Generator> &
    {
        using namespace gcs;
        static const std::map<string, Generator> all = [] {
            std::map<string, Generator> g;

            g["abs"] = [](Maker & k) {
                auto c = k.con("abs");
                auto x = k.term(-4, 4), y = k.term(-1, 4);
                c.json.add("x", x.json()).add("y", y.json());
                c.post = [=](const Sink & s, const Ids & v) { s.post(Abs{x.id(v), y.id(v)}); };
                return c;
            };

            g["alldiff"] = [](Maker & k) {
                auto c = k.con("alldiff");
                auto n = static_cast<int>(k.rng.in(1, 5));
                auto xs = k.terms(n, 0, std::max(2, n - (k.rng.chance(1, 3) ? 1 : 0)));
                c.json.add("xs", terms_json(xs));
                auto level = k.rng.in(0, 2);
                c.variant = level == 0 ? "vc" : "gac";
                c.post = [=](const Sink & s, const Ids & v) {
                    AllDifferent a{ids_of(xs, v)};
                    if (level == 0)
                        a.with_consistency(consistency::VC{});
                    else if (level == 1)
                        a.with_consistency(consistency::GAC{});
                    s.post(a);
                };
                return c;
            };

            g["alldiffexcept"] = [](Maker & k) {
                auto c = k.con("alldiffexcept");
                auto xs = k.terms(static_cast<int>(k.rng.in(1, 5)), 0, 3);
                vector<long long> ex;
                bool zero = k.rng.chance(1, 3);
                if (zero)
                    ex.push_back(0);
                else
                    for (int i = static_cast<int>(k.rng.in(0, 3)); i > 0; --i)
                        ex.push_back(k.rng.in(-1, 4));
                c.json.add("xs", terms_json(xs)).add("except", ex);
                c.variant = zero ? "zero" : "";
                c.post = [=](const Sink & s, const Ids & v) {
                    if (zero)
                        s.post(AllDifferentExceptZero{ids_of(xs, v)});
                    else
                        s.post(AllDifferentExcept{ids_of(xs, v), ints_of(ex)});
                };
                return c;
            };

            g["symalldiff"] = [](Maker & k) {
                auto c = k.con("symalldiff");
                auto n = static_cast<int>(k.rng.in(1, 4));
                long long start = k.rng.in(-1, 2);
                auto xs = k.terms(n, start - (k.rng.chance(1, 4) ? 1 : 0), start + n - 1 + (k.rng.chance(1, 4) ? 1 : 0));
                c.json.add("xs", terms_json(xs)).add("start", start);
                c.post = [=](const Sink & s, const Ids & v) { s.post(SymmetricAllDifferent{ids_of(xs, v), Integer{start}}); };
                return c;
            };

            g["allequal"] = [](Maker & k) {
                auto c = k.con("allequal");
                auto xs = k.terms(static_cast<int>(k.rng.in(1, 4)), 0, 4);
                c.json.add("xs", terms_json(xs));
                c.post = [=](const Sink & s, const Ids & v) { s.post(AllEqual{ids_of(xs, v)}); };
                return c;
            };

            g["among"] = [](Maker & k) {
                auto c = k.con("among");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto xs = k.terms(n, 0, 4);
                vector<long long> vals;
                for (int i = static_cast<int>(k.rng.in(0, 3)); i > 0; --i)
                    vals.push_back(k.rng.in(0, 5));
                if (k.rng.chance(4, 5)) {
                    std::sort(vals.begin(), vals.end());
                    vals.erase(std::unique(vals.begin(), vals.end()), vals.end());
                }
                auto y = k.term(0, n);
                c.json.add("xs", terms_json(xs)).add("vals", vals).add("y", y.json());
                c.post = [=](const Sink & s, const Ids & v) { s.post(Among{ids_of(xs, v), ints_of(vals), y.id(v)}); };
                return c;
            };

            g["atmostone"] = [](Maker & k) {
                auto c = k.con("atmostone");
                auto xs = k.terms(static_cast<int>(k.rng.in(1, 4)), 0, 3);
                auto y = k.term(0, 3);
                c.json.add("xs", terms_json(xs)).add("y", y.json());
                c.post = [=](const Sink & s, const Ids & v) { s.post(AtMostOne{ids_of(xs, v), y.id(v)}); };
                return c;
            };

            g["atmostonesmart"] = [](Maker & k) {
                auto c = k.con("atmostonesmart");
                // every entry relates two different variables
                k.constants = 1000000;
                k.viewed = 1000000;
                vector<Term> xs;
                auto y = k.term(0, 3);
                std::set<int> used{y.v};
                for (int i = static_cast<int>(k.rng.in(1, 4)); i > 0; --i) {
                    auto t = k.term(0, 3);
                    if (used.insert(t.v).second)
                        xs.push_back(t);
                }
                c.json.add("xs", terms_json(xs)).add("y", y.json());
                c.post = [=](const Sink & s, const Ids & v) { s.post(AtMostOneSmartTable{ids_of(xs, v), y.id(v)}); };
                return c;
            };

            g["binpacking"] = [](Maker & k) {
                bool loads = k.rng.chance(1, 2);
                auto c = k.con(loads ? "binpackingload" : "binpackingcap");
                auto bins = static_cast<int>(k.rng.in(1, 3)), n = static_cast<int>(k.rng.in(1, 4));
                auto items = k.terms(n, 0, bins - 1, true);
                vector<long long> sizes, caps;
                long long total = 0;
                for (int i = 0; i < n; ++i) {
                    sizes.push_back(k.rng.in(0, 3));
                    total += sizes.back();
                }
                vector<Term> ls;
                c.json.add("xs", terms_json(items)).add("sizes", sizes);
                if (loads) {
                    ls = k.terms(bins, 0, std::max(1ll, std::min(total, 6ll)), true);
                    c.json.add("loads", terms_json(ls));
                }
                else {
                    for (int i = 0; i < bins; ++i)
                        caps.push_back(k.rng.in(0, std::max(1ll, total)));
                    c.json.add("caps", caps);
                }
                auto level = k.rng.in(0, 2), strategy = k.rng.in(0, 2);
                c.variant = std::to_string(level) + std::to_string(strategy);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto b = loads ? BinPacking{ids_of(items, v), ints_of(sizes), ids_of(ls, v)} : BinPacking{ids_of(items, v), ints_of(sizes), ints_of(caps)};
                    if (level == 0)
                        b.with_consistency(consistency::BC{});
                    else if (level == 1)
                        b.with_consistency(consistency::GAC{});
                    if (strategy == 0)
                        b.with_proof_strategy(proof_strategy::Upfront{});
                    else if (strategy == 1)
                        b.with_proof_strategy(proof_strategy::PerCall{});
                    s.post(b);
                };
                return c;
            };

            g["circuit"] = [](Maker & k) {
                auto c = k.con("circuit");
                auto n = k.rng.chance(1, 12) ? 0 : static_cast<int>(k.rng.in(1, 5));
                k.reuse = 12;
                vector<Term> xs;
                for (int i = 0; i < n; ++i)
                    xs.push_back(k.term(0, n - 1 + (k.rng.chance(1, 8) ? 1 : 0)));
                c.json.add("xs", terms_json(xs));
                auto alg = k.rng.in(0, 2), knobs = k.rng.in(0, 63);
                c.variant = std::to_string(alg) + ":" + std::to_string(knobs);
                c.post = [=](const Sink & s, const Ids & v) {
                    Circuit a{ids_of(xs, v)};
                    if (alg == 0)
                        a.with_algorithm(circuit::Prevent{});
                    else if (alg == 1)
                        a.with_algorithm(circuit::SCC{});
                    if (knobs & 32) {
                        a.with_gac_all_different(knobs & 1);
                        a.with_prune_root(knobs & 2);
                        a.with_prune_skip(knobs & 4);
                        a.with_fix_req(knobs & 8);
                        a.with_prune_within(knobs & 16);
                    }
                    s.post(a);
                };
                return c;
            };

            g["compare"] = [](Maker & k) {
                auto c = k.con("compare");
                auto x = k.term(-2, 4), y = k.term(-2, 4);
                auto mode = pick_mode(k.rng);
                auto l = k.cond();
                bool or_equal = k.rng.chance(1, 2), swapped = k.rng.chance(1, 4);
                int cls = static_cast<int>(k.rng.in(0, 2));
                // the public classes: < <= > >= each plain, if and iff
                if (cls != 0 && (mode == "mustnot" || mode == "notif"))
                    mode = "iff";
                bool greater = cls == 2;
                c.json.add("x", x.json()).add("y", y.json()).add("r", k.reif_json(mode, l)).add("oreq", or_equal).add("gt", greater).add("cls", cls != 0);
                c.variant = std::to_string(cls);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto a = x.id(v), b = y.id(v);
                    if (cls == 0)
                        s.post(ReifiedCompareLessThanOrMaybeEqual{a, b, reif_of(mode, l, v), or_equal, swapped});
                    else if (mode == "must") {
                        if (greater && or_equal)
                            s.post(GreaterThanEqual{a, b});
                        else if (greater)
                            s.post(GreaterThan{a, b});
                        else if (or_equal)
                            s.post(LessThanEqual{a, b});
                        else
                            s.post(LessThan{a, b});
                    }
                    else if (mode == "if") {
                        auto q = l.cond(v);
                        if (greater && or_equal)
                            s.post(GreaterThanEqualIf{a, b, q});
                        else if (greater)
                            s.post(GreaterThanIf{a, b, q});
                        else if (or_equal)
                            s.post(LessThanEqualIf{a, b, q});
                        else
                            s.post(LessThanIf{a, b, q});
                    }
                    else {
                        auto q = l.cond(v);
                        if (greater && or_equal)
                            s.post(GreaterThanEqualIff{a, b, q});
                        else if (greater)
                            s.post(GreaterThanIff{a, b, q});
                        else if (or_equal)
                            s.post(LessThanEqualIff{a, b, q});
                        else
                            s.post(LessThanIff{a, b, q});
                    }
                };
                return c;
            };

            g["count"] = [](Maker & k) {
                auto c = k.con("count");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto xs = k.terms(n, 0, 3);
                auto val = k.term(0, 3), y = k.term(0, n);
                c.json.add("xs", terms_json(xs)).add("val", val.json()).add("y", y.json());
                c.post = [=](const Sink & s, const Ids & v) { s.post(Count{ids_of(xs, v), val.id(v), y.id(v)}); };
                return c;
            };

            g["cumulative"] = [](Maker & k) {
                auto c = k.con("cumulative");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto starts = k.terms(n, 0, 5);
                bool constant = k.rng.chance(3, 5), presences = k.optional_tasks || k.rng.chance(1, 3);
                if (presences)
                    constant = false;
                vector<Term> ls, hs, ps;
                int saved = k.constants;
                k.constants = constant ? 1 : 2;
                for (int i = 0; i < n; ++i) {
                    ls.push_back(k.term(k.rng.chance(1, 5) ? 0 : 1, 3, true));
                    hs.push_back(k.term(k.rng.chance(1, 6) ? 0 : 1, 3, true));
                }
                auto cap = k.term(k.rng.chance(1, 8) ? 0 : 1, 4, true);
                k.constants = 5;
                if (presences)
                    for (int i = 0; i < n; ++i)
                        ps.push_back(k.optional_tasks ? k.presence() : k.term(0, 1, true));
                k.constants = saved;
                bool as_integers = constant && k.rng.chance(1, 2);
                int rules = static_cast<int>(k.rng.in(0, 1023));
                if (k.rng.chance(1, 3))
                    rules = -1;
                c.json.add("starts", terms_json(starts)).add("lengths", terms_json(ls)).add("heights", terms_json(hs)).add("cap", cap.json()).add("pres", terms_json(ps));
                c.variant = std::to_string(rules);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto whole = [](const vector<Term> & ts) { vector<Integer> r; for (auto & t : ts) r.emplace_back(t.o); return r; };
                    auto q = as_integers ? Cumulative{ids_of(starts, v), whole(ls), whole(hs), Integer{cap.o}}
                        : presences      ? Cumulative{ids_of(starts, v), ids_of(ls, v), ids_of(hs, v), ids_of(ps, v), cap.id(v)}
                                         : Cumulative{ids_of(starts, v), ids_of(ls, v), ids_of(hs, v), cap.id(v)};
                    if (rules >= 0)
                        q.with_rules(CumulativeRules{.time_table = (rules & 1) != 0, .overload = (rules & 2) != 0, .profile_overload = (rules & 4) != 0, .elastic_overload = (rules & 8) != 0, .knapsack_overload = (rules & 16) != 0, .edge_finding = (rules & 32) != 0, .time_table_edge_finding = (rules & 64) != 0, .energetic_edge_finding = (rules & 128) != 0, .not_first_not_last = (rules & 256) != 0, .not_first_not_last_published = (rules & 512) != 0});
                    s.post(q);
                };
                return c;
            };

            g["difference"] = [](Maker & k) {
                auto c = k.con("difference");
                struct Edge
                {
                    Term x, y;
                    long long d;
                    std::optional<Lit> cond;
                };
                vector<Edge> es;
                vector<J> ej;
                auto n = static_cast<int>(k.rng.in(1, 6));
                k.constants = 16;
                for (int i = 0; i < n; ++i) {
                    Edge e{k.term(-2, 4), k.term(-2, 4), k.rng.in(-3, 3), std::nullopt};
                    if (! k.rng.chance(1, 16))
                        for (auto * t : {&e.x, &e.y})
                            if (t->v != 0)
                                t->c = 1;
                    Obj o;
                    if (k.rng.chance(1, 3)) {
                        e.cond = k.cond();
                        o.add("c", e.cond->json());
                    }
                    else
                        o.add("c", Lit{"true", {}, 0}.json());
                    o.add("x", e.x.json()).add("y", e.y.json()).add("d", e.d);
                    ej.push_back(o);
                    es.push_back(e);
                }
                c.json.add("edges", ej);
                auto knobs = k.rng.in(0, 7);
                c.variant = std::to_string(knobs);
                c.post = [=](const Sink & s, const Ids & v) {
                    vector<DifferenceEdge> edges;
                    for (auto & e : es)
                        edges.push_back(DifferenceEdge{e.x.id(v), e.y.id(v), Integer{e.d}, e.cond ? std::optional<IntegerVariableCondition>{e.cond->cond(v)} : std::nullopt});
                    DifferenceConstraints d{edges};
                    d.simplifying_at_root((knobs & 1) != 0).incrementally((knobs & 2) != 0).auditing_incremental_propagation((knobs & 4) != 0);
                    s.post(d);
                };
                return c;
            };

            g["disjunctive"] = [](Maker & k) {
                auto c = k.con("disjunctive");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto starts = k.terms(n, 0, 6);
                bool constant = k.rng.chance(1, 2), presences = k.optional_tasks || k.rng.chance(1, 3);
                if (presences)
                    constant = false;
                vector<Term> ls, ps;
                int saved = k.constants;
                k.constants = constant ? 1 : 2;
                for (int i = 0; i < n; ++i)
                    ls.push_back(k.term(k.rng.chance(1, 3) ? 0 : 1, 3, true));
                k.constants = 5;
                if (presences)
                    for (int i = 0; i < n; ++i)
                        ps.push_back(k.optional_tasks ? k.presence() : k.term(0, 1, true));
                k.constants = saved;
                bool as_integers = constant && k.rng.chance(1, 2);
                int strict = static_cast<int>(k.rng.in(0, 2)); // 2: the default
                int rules = k.rng.chance(1, 3) ? -1 : static_cast<int>(k.rng.in(0, 2047));
                int cert = static_cast<int>(k.rng.in(0, 2));
                c.json.add("starts", terms_json(starts)).add("lengths", terms_json(ls)).add("pres", terms_json(ps)).add("strict", strict != 0);
                c.variant = std::to_string(strict) + ":" + std::to_string(rules);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto whole = [](const vector<Term> & ts) { vector<Integer> r; for (auto & t : ts) r.emplace_back(t.o); return r; };
                    auto q = as_integers ? Disjunctive{ids_of(starts, v), whole(ls)}
                        : presences      ? Disjunctive{ids_of(starts, v), ids_of(ls, v), ids_of(ps, v)}
                                         : Disjunctive{ids_of(starts, v), ids_of(ls, v)};
                    if (strict != 2)
                        q.with_strict(strict == 1);
                    if (rules >= 0) {
                        DisjunctiveRules r;
                        r.time_table = rules & 1;
                        r.detectable_precedences = rules & 2;
                        r.detectable_precedences_set = rules & 4;
                        r.overload = rules & 8;
                        r.edge_finding = rules & 16;
                        r.edge_finding_lb = rules & 32;
                        r.edge_finding_ub = rules & 64;
                        r.not_first_not_last = rules & 128;
                        r.not_first = rules & 256;
                        r.not_last = rules & 512;
                        r.not_first_not_last_published = rules & 1024;
                        r.overload_certificate = cert == 0 ? DisjunctiveOverloadCertificate::TimeIndexed : cert == 1 ? DisjunctiveOverloadCertificate::SortingNetwork : DisjunctiveOverloadCertificate::Cheaper;
                        q.with_rules(r);
                    }
                    s.post(q);
                };
                return c;
            };

            g["disjunctive2d"] = [](Maker & k) {
                auto c = k.con("disjunctive2d");
                auto n = static_cast<int>(k.rng.in(1, 3));
                auto xs = k.terms(n, 0, 3), ys = k.terms(n, 0, 3);
                bool constant = k.rng.chance(1, 2);
                vector<Term> ws, hs;
                int saved = k.constants;
                k.constants = constant ? 1 : 2;
                for (int i = 0; i < n; ++i) {
                    ws.push_back(k.term(k.rng.chance(1, 3) ? 0 : 1, 3, true));
                    hs.push_back(k.term(k.rng.chance(1, 3) ? 0 : 1, 3, true));
                }
                k.constants = saved;
                int strict = static_cast<int>(k.rng.in(0, 2));
                bool as_integers = constant && k.rng.chance(1, 2);
                c.json.add("xs", terms_json(xs)).add("ys", terms_json(ys)).add("ws", terms_json(ws)).add("hs", terms_json(hs)).add("strict", strict != 0);
                c.variant = std::to_string(strict);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto whole = [](const vector<Term> & ts) { vector<Integer> r; for (auto & t : ts) r.emplace_back(t.o); return r; };
                    auto q = as_integers ? Disjunctive2D{ids_of(xs, v), ids_of(ys, v), whole(ws), whole(hs)} : Disjunctive2D{ids_of(xs, v), ids_of(ys, v), ids_of(ws, v), ids_of(hs, v)};
                    if (strict != 2)
                        q.with_strict(strict == 1);
                    s.post(q);
                };
                return c;
            };

            auto arithmetic = [&g](const string & name, long long xl, long long xh, long long yl, long long yh, long long zl, long long zh, auto make) {
                g[name] = [=](Maker & k) {
                    auto c = k.con(name);
                    auto x = k.term(xl, xh), y = k.term(yl, yh), z = k.term(zl, zh);
                    c.json.add("x", x.json()).add("y", y.json()).add("z", z.json());
                    auto level = k.rng.in(0, 3);
                    c.variant = std::to_string(level);
                    c.post = [=](const Sink & s, const Ids & v) {
                        auto a = make(x.id(v), y.id(v), z.id(v));
                        if (level == 1)
                            a.with_consistency(consistency::BC{});
                        else if (level == 2)
                            a.with_consistency(consistency::Tabulated{});
                        else if (level == 3)
                            a.with_consistency(consistency::Auto{});
                        s.post(a);
                    };
                    return c;
                };
            };
            using V = IntegerVariableID;
            arithmetic("divide", -7, 7, -3, 3, -4, 4, [](V x, V y, V z) { return Divide{x, y, z}; });
            arithmetic("modulus", -7, 7, -3, 3, -3, 3, [](V x, V y, V z) { return Modulus{x, y, z}; });
            arithmetic("multiply", -3, 3, -3, 3, -9, 9, [](V x, V y, V z) { return Multiply{x, y, z}; });
            arithmetic("plus", -3, 4, -3, 4, -5, 7, [](V x, V y, V z) { return Plus{x, y, z}; });
            arithmetic("minus", -3, 4, -3, 4, -5, 7, [](V x, V y, V z) { return Minus{x, y, z}; });
            arithmetic("power", -3, 3, -2, 3, -9, 27, [](V x, V y, V z) { return Power{x, y, z}; });

            g["element"] = [](Maker & k) {
                auto c = k.con("element");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto arr = k.terms(n, -1, 4);
                long long off = k.rng.chance(1, 2) ? 0 : k.rng.in(-2, 2);
                auto i = k.term(off - (k.rng.chance(1, 4) ? 1 : 0), off + n - 1 + (k.rng.chance(1, 4) ? 1 : 0)), y = k.term(-1, 4);
                auto level = k.rng.in(0, 2);
                c.json.add("arr", terms_json(arr)).add("i", i.json()).add("off", off).add("y", y.json());
                c.variant = std::to_string(level);
                c.post = [=](const Sink & s, const Ids & v) {
                    Element e = off == 0 ? Element{y.id(v), i.id(v), ids_of(arr, v)} : Element{y.id(v), std::pair{i.id(v), Integer{off}}, ids_of(arr, v)};
                    if (level == 0)
                        e.with_consistency(consistency::BC{});
                    else if (level == 1)
                        e.with_consistency(consistency::GAC{});
                    s.post(e);
                };
                return c;
            };

            g["elementconst"] = [](Maker & k) {
                auto c = k.con("elementconst");
                auto n = static_cast<int>(k.rng.in(1, 6));
                vector<long long> arr;
                for (int j = 0; j < n; ++j)
                    arr.push_back(k.rng.in(-2, 4));
                long long off = k.rng.chance(1, 2) ? 0 : k.rng.in(-2, 2);
                auto i = k.term(off - (k.rng.chance(1, 4) ? 1 : 0), off + n - 1 + (k.rng.chance(1, 4) ? 1 : 0)), y = k.term(-2, 4);
                auto level = k.rng.in(0, 2);
                c.json.add("arr", arr).add("i", i.json()).add("off", off).add("y", y.json());
                c.variant = std::to_string(level);
                c.post = [=](const Sink & s, const Ids & v) {
                    ElementConstantArray e = off == 0 ? ElementConstantArray{y.id(v), i.id(v), ints_of(arr)} : ElementConstantArray{y.id(v), std::pair{i.id(v), Integer{off}}, ints_of(arr)};
                    if (level == 0)
                        e.with_consistency(consistency::BC{});
                    else if (level == 1)
                        e.with_consistency(consistency::GAC{});
                    s.post(e);
                };
                return c;
            };

            g["element2d"] = [](Maker & k) {
                auto c = k.con("element2d");
                auto h = static_cast<int>(k.rng.in(1, 3)), w = static_cast<int>(k.rng.in(1, 3));
                vector<vector<Term>> grid;
                vector<J> gj;
                k.constants = 2;
                for (int r = 0; r < h; ++r) {
                    grid.push_back(k.terms(w, -1, 3));
                    gj.push_back(terms_json(grid.back()));
                }
                k.constants = 10;
                long long o1 = k.rng.chance(1, 2) ? 0 : k.rng.in(-1, 2), o2 = k.rng.chance(1, 2) ? 0 : k.rng.in(-1, 2);
                auto i = k.term(o1, o1 + h - 1 + (k.rng.chance(1, 5) ? 1 : 0)), j = k.term(o2, o2 + w - 1 + (k.rng.chance(1, 5) ? 1 : 0)), y = k.term(-1, 3);
                auto level = k.rng.in(0, 2);
                c.json.add("arr", gj).add("i", i.json()).add("o1", o1).add("j", j.json()).add("o2", o2).add("y", y.json());
                c.variant = std::to_string(level);
                c.post = [=](const Sink & s, const Ids & v) {
                    vector<Ids> rows;
                    for (auto & r : grid)
                        rows.push_back(ids_of(r, v));
                    Element2D e{y.id(v), std::pair{i.id(v), Integer{o1}}, std::pair{j.id(v), Integer{o2}}, rows};
                    if (level == 0)
                        e.with_consistency(consistency::BC{});
                    else if (level == 1)
                        e.with_consistency(consistency::GAC{});
                    s.post(e);
                };
                return c;
            };

            g["element2dconst"] = [](Maker & k) {
                auto c = k.con("element2dconst");
                auto h = static_cast<int>(k.rng.in(1, 4)), w = static_cast<int>(k.rng.in(1, 4));
                vector<vector<long long>> grid(h);
                for (auto & r : grid)
                    for (int q = 0; q < w; ++q)
                        r.push_back(k.rng.in(-2, 4));
                bool plain = k.rng.chance(1, 2);
                long long o1 = plain ? 0 : k.rng.in(-1, 2), o2 = plain ? 0 : k.rng.in(-1, 2);
                auto i = k.term(o1, o1 + h - 1 + (k.rng.chance(1, 5) ? 1 : 0)), j = k.term(o2, o2 + w - 1 + (k.rng.chance(1, 5) ? 1 : 0)), y = k.term(-2, 4);
                auto level = k.rng.in(0, 2);
                c.json.add("arr", grid_json(grid)).add("i", i.json()).add("o1", o1).add("j", j.json()).add("o2", o2).add("y", y.json());
                c.variant = std::to_string(level);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto e = plain ? Element2DConstantArray{y.id(v), i.id(v), j.id(v), grid_of(grid)} : Element2DConstantArray{y.id(v), std::pair{i.id(v), Integer{o1}}, std::pair{j.id(v), Integer{o2}}, grid_of(grid)};
                    if (level == 0)
                        e.with_consistency(consistency::BC{});
                    else if (level == 1)
                        e.with_consistency(consistency::GAC{});
                    s.post(e);
                };
                return c;
            };

            g["equals"] = [](Maker & k) {
                auto c = k.con("equals");
                auto x = k.term(-2, 4), y = k.term(-2, 4);
                auto l = k.cond();
                auto mode = pick_mode(k.rng);
                bool cls = k.rng.chance(2, 3);
                c.json.add("x", x.json()).add("y", y.json()).add("r", k.reif_json(mode, l)).add("cls", cls);
                bool ne = k.rng.chance(1, 2);
                c.variant = cls ? "class" : "base";
                c.json.add("ne", cls && mode == "iff" && ne);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto a = x.id(v), b = y.id(v);
                    if (! cls)
                        s.post(ReifiedEquals{a, b, reif_of(mode, l, v)});
                    else if (mode == "must")
                        s.post(Equals{a, b});
                    else if (mode == "mustnot")
                        s.post(NotEquals{a, b});
                    else if (mode == "if")
                        s.post(EqualsIf{a, b, l.cond(v)});
                    else if (mode == "notif")
                        s.post(NotEqualsIf{a, b, l.cond(v)});
                    else if (ne)
                        s.post(NotEqualsIff{a, b, l.cond(v)});
                    else
                        s.post(EqualsIff{a, b, l.cond(v)});
                };
                return c;
            };

            g["gcc"] = [](Maker & k) {
                auto c = k.con("gcc");
                auto n = static_cast<int>(k.rng.in(1, 4)), q = static_cast<int>(k.rng.in(1, 3));
                auto xs = k.terms(n, 0, 3);
                vector<long long> vals{0, 1, 2, 3, 4};
                k.rng.shuffle(vals);
                vals.resize(q);
                k.constants = 3;
                auto ys = k.terms(q, 0, std::min(n, 3));
                bool closed = k.rng.chance(1, 2);
                auto level = k.rng.in(0, 2);
                c.json.add("xs", terms_json(xs)).add("vals", vals).add("ys", terms_json(ys)).add("closed", closed);
                c.variant = std::to_string(level);
                c.post = [=](const Sink & s, const Ids & v) {
                    GlobalCardinality a{ids_of(xs, v), ints_of(vals), ids_of(ys, v)};
                    if (closed)
                        a.with_closed();
                    if (level == 0)
                        a.with_consistency(consistency::GAC{});
                    else if (level == 1)
                        a.with_consistency(consistency::BC{});
                    s.post(a);
                };
                return c;
            };

            g["in"] = [](Maker & k) {
                auto c = k.con("in");
                auto x = k.term(-1, 4);
                auto xs = k.terms(static_cast<int>(k.rng.in(0, 3)), -1, 4);
                vector<long long> vals;
                for (int i = static_cast<int>(k.rng.in(0, 3)); i > 0; --i)
                    vals.push_back(k.rng.in(-2, 5));
                int form = static_cast<int>(k.rng.in(0, 2));
                if (form == 1)
                    vals.clear();
                if (form == 2)
                    xs.clear();
                c.json.add("x", x.json()).add("xs", terms_json(xs)).add("vals", vals);
                c.post = [=](const Sink & s, const Ids & v) {
                    if (form == 1)
                        s.post(In{x.id(v), ids_of(xs, v)});
                    else if (form == 2)
                        s.post(In{x.id(v), ints_of(vals)});
                    else
                        s.post(In{x.id(v), ids_of(xs, v), ints_of(vals)});
                };
                return c;
            };

            g["increasing"] = [](Maker & k) {
                auto c = k.con("increasing");
                auto xs = k.terms(static_cast<int>(k.rng.in(1, 4)), 0, 4);
                bool strict = k.rng.chance(1, 2), desc = k.rng.chance(1, 2), cls = k.rng.chance(1, 2);
                c.json.add("xs", terms_json(xs)).add("strict", strict).add("desc", desc);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto x = ids_of(xs, v);
                    if (! cls)
                        s.post(IncreasingChain{x, strict, desc});
                    else if (strict && desc)
                        s.post(StrictlyDecreasing{x});
                    else if (strict)
                        s.post(StrictlyIncreasing{x});
                    else if (desc)
                        s.post(Decreasing{x});
                    else
                        s.post(Increasing{x});
                };
                return c;
            };

            g["inverse"] = [](Maker & k) {
                auto c = k.con("inverse");
                auto n = static_cast<int>(k.rng.in(1, 3));
                long long xs = k.rng.chance(1, 2) ? 0 : k.rng.in(-1, 2), ys = k.rng.chance(1, 2) ? 0 : k.rng.in(-1, 2);
                k.reuse = 10;
                vector<Term> x, y;
                // x[i] names an index of y and the other way about
                for (int i = 0; i < n; ++i) {
                    x.push_back(k.term(ys - (k.rng.chance(1, 8) ? 1 : 0), ys + n - 1));
                    y.push_back(k.term(xs, xs + n - 1 + (k.rng.chance(1, 8) ? 1 : 0)));
                }
                c.json.add("xs", terms_json(x)).add("ys", terms_json(y)).add("x0", xs).add("y0", ys);
                c.post = [=](const Sink & s, const Ids & v) { s.post(Inverse{ids_of(x, v), ids_of(y, v), Integer{xs}, Integer{ys}}); };
                return c;
            };

            g["knapsack"] = [](Maker & k) {
                auto c = k.con("knapsack");
                auto n = static_cast<int>(k.rng.in(1, 4)), q = static_cast<int>(k.rng.in(1, 3));
                auto xs = k.terms(n, 0, 2, true, true, true);
                vector<vector<long long>> co(q);
                for (auto & r : co)
                    for (int i = 0; i < n; ++i)
                        r.push_back(k.rng.in(0, 3));
                k.constants = 6;
                auto ts = k.terms(q, 0, 6, true);
                bool plain = q == 2 && k.rng.chance(1, 2);
                auto strategy = k.rng.in(0, 2);
                c.json.add("xs", terms_json(xs)).add("co", grid_json(co)).add("ts", terms_json(ts));
                c.variant = std::to_string(strategy);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto a = plain ? Knapsack{ints_of(co[0]), ints_of(co[1]), ids_of(xs, v), ts[0].id(v), ts[1].id(v)} : Knapsack{grid_of(co), ids_of(xs, v), ids_of(ts, v)};
                    if (strategy == 0)
                        a.with_proof_strategy(proof_strategy::Upfront{});
                    else if (strategy == 1)
                        a.with_proof_strategy(proof_strategy::PerCall{});
                    s.post(a);
                };
                return c;
            };

            g["lex"] = [](Maker & k) {
                auto c = k.con("lex");
                auto n = static_cast<int>(k.rng.in(1, 3)), q = k.rng.chance(2, 3) ? n : static_cast<int>(k.rng.in(1, 3));
                auto xs = k.terms(n, 0, 2), ys = k.terms(q, 0, 2);
                auto mode = pick_mode(k.rng);
                auto l = k.cond();
                bool or_equal = k.rng.chance(1, 2), less = k.rng.chance(1, 2), cls = k.rng.chance(1, 2) && mode != "mustnot" && mode != "notif";
                c.json.add("xs", terms_json(xs)).add("ys", terms_json(ys)).add("r", k.reif_json(mode, l)).add("oreq", or_equal).add("lt", less);
                c.post = [=](const Sink & s, const Ids & v) {
                    auto a = ids_of(xs, v), b = ids_of(ys, v);
                    if (! cls)
                        s.post(less ? LexCompareGreaterThanOrMaybeEqual{b, a, reif_of(mode, l, v), or_equal, true} : LexCompareGreaterThanOrMaybeEqual{a, b, reif_of(mode, l, v), or_equal});
                    else if (mode == "must") {
                        if (less && or_equal)
                            s.post(LexLessThanEqual{a, b});
                        else if (less)
                            s.post(LexLessThan{a, b});
                        else if (or_equal)
                            s.post(LexGreaterEqual{a, b});
                        else
                            s.post(LexGreaterThan{a, b});
                    }
                    else if (mode == "if") {
                        auto z = l.cond(v);
                        if (less && or_equal)
                            s.post(LexLessThanEqualIf{a, b, z});
                        else if (less)
                            s.post(LexLessThanIf{a, b, z});
                        else if (or_equal)
                            s.post(LexGreaterEqualIf{a, b, z});
                        else
                            s.post(LexGreaterThanIf{a, b, z});
                    }
                    else {
                        auto z = l.cond(v);
                        if (less && or_equal)
                            s.post(LexLessThanEqualIff{a, b, z});
                        else if (less)
                            s.post(LexLessThanIff{a, b, z});
                        else if (or_equal)
                            s.post(LexGreaterEqualIff{a, b, z});
                        else
                            s.post(LexGreaterThanIff{a, b, z});
                    }
                };
                return c;
            };

            g["lexsmart"] = [](Maker & k) {
                auto c = k.con("lexsmart");
                k.constants = 1000000;
                k.viewed = 1000000;
                k.reuse = 1000000;
                auto n = static_cast<int>(k.rng.in(1, 3)), q = static_cast<int>(k.rng.in(1, 3));
                vector<Term> xs, ys;
                for (int i = 0; i < n; ++i)
                    xs.push_back({k.new_var(k.domain(0, 2)), 1, 0});
                for (int i = 0; i < q; ++i)
                    ys.push_back({k.new_var(k.domain(0, 2)), 1, 0});
                c.json.add("xs", terms_json(xs)).add("ys", terms_json(ys));
                c.post = [=](const Sink & s, const Ids & v) { s.post(LexSmartTable{ids_of(xs, v), ids_of(ys, v)}); };
                return c;
            };

            g["lineq"] = [](Maker & k) {
                auto c = k.con("lineq");
                auto n = static_cast<int>(k.rng.in(1, 5));
                vector<long long> co;
                vector<Term> xs;
                long long sum = 0;
                vector<J> js;
                for (int i = 0; i < n; ++i) {
                    co.push_back(k.rng.chance(1, 2) ? (k.rng.chance(1, 2) ? 1 : -1) : k.rng.in(-3, 3));
                    xs.push_back(k.term(-2, 3));
                    js.push_back(arr({J{co.back()}, xs.back().json()}));
                    sum += co.back() * (xs.back().v == 0 ? xs.back().o : xs.back().c * k.rng.pick(k.m.doms[xs.back().v - 1]) + xs.back().o);
                }
                long long value = k.rng.chance(4, 5) ? sum : sum + k.rng.in(-2, 2);
                auto mode = pick_mode(k.rng);
                auto l = k.cond();
                auto ll = k.lit();
                bool cls = k.rng.chance(2, 3), ne = k.rng.chance(1, 2);
                // a literal condition is only accepted by the classes
                bool use_lit = cls && mode != "must" && mode != "mustnot";
                auto used = use_lit ? ll : l;
                auto level = k.rng.in(0, 2), threshold = k.rng.in(0, 3);
                c.json.add("sum", js).add("value", value).add("r", k.reif_json(mode, used)).add("ne", cls && mode == "iff" && ne);
                c.variant = std::to_string(level) + ":" + std::to_string(threshold);
                c.post = [=](const Sink & s, const Ids & v) {
                    WeightedSum sum;
                    for (int i = 0; i < n; ++i)
                        sum += Integer{co[i]} * xs[i].id(v);
                    auto finish = [&](ReifiedLinearEquality q) {
                        if (level == 1)
                            q.with_consistency(consistency::Tabulated{});
                        else if (level == 2)
                            q.with_consistency(consistency::BC{});
                        if (threshold == 1)
                            q.with_incremental_threshold(std::nullopt);
                        else if (threshold == 2)
                            q.with_incremental_threshold(1);
                        s.post(q);
                    };
                    if (! cls)
                        finish(ReifiedLinearEquality{sum, Integer{value}, reif_of(mode, l, v)});
                    else if (mode == "must")
                        finish(LinearEquality{sum, Integer{value}});
                    else if (mode == "mustnot")
                        finish(LinearNotEquals{sum, Integer{value}});
                    else if (mode == "if")
                        finish(LinearEqualityIf{sum, Integer{value}, ll.literal(v)});
                    else if (mode == "notif")
                        finish(LinearNotEqualsIf{sum, Integer{value}, ll.literal(v)});
                    else if (ne)
                        finish(LinearNotEqualsIff{sum, Integer{value}, ll.literal(v)});
                    else
                        finish(LinearEqualityIff{sum, Integer{value}, ll.literal(v)});
                };
                return c;
            };

            g["linle"] = [](Maker & k) {
                auto c = k.con("linle");
                auto n = static_cast<int>(k.rng.in(1, 5));
                vector<long long> co;
                vector<Term> xs;
                vector<J> js;
                long long sum = 0;
                for (int i = 0; i < n; ++i) {
                    co.push_back(k.rng.chance(1, 2) ? (k.rng.chance(1, 2) ? 1 : -1) : k.rng.in(-3, 3));
                    xs.push_back(k.term(-2, 3));
                    js.push_back(arr({J{co.back()}, xs.back().json()}));
                    sum += co.back() * (xs.back().v == 0 ? xs.back().o : xs.back().c * k.rng.pick(k.m.doms[xs.back().v - 1]) + xs.back().o);
                }
                long long value = sum + k.rng.in(-1, 1);
                auto mode = pick_mode(k.rng);
                auto l = k.cond();
                bool cls = k.rng.chance(2, 3) && mode != "mustnot" && mode != "notif", ge = cls && k.rng.chance(1, 2);
                auto threshold = k.rng.in(0, 2);
                c.json.add("sum", js).add("value", value).add("r", k.reif_json(mode, l)).add("ge", ge);
                c.variant = std::to_string(threshold);
                c.post = [=](const Sink & s, const Ids & v) {
                    WeightedSum sum;
                    for (int i = 0; i < n; ++i)
                        sum += Integer{co[i]} * xs[i].id(v);
                    std::optional<std::size_t> th = threshold == 0 ? std::nullopt : std::optional<std::size_t>{threshold == 1 ? 1 : 100};
                    if (! cls)
                        s.post(ReifiedLinearInequality{sum, Integer{value}, reif_of(mode, l, v), th});
                    else if (mode == "must") {
                        if (ge)
                            s.post(LinearGreaterThanEqual{sum, Integer{value}, th});
                        else
                            s.post(LinearLessThanEqual{sum, Integer{value}, th});
                    }
                    else if (mode == "if") {
                        if (ge)
                            s.post(LinearGreaterThanEqualIf{sum, Integer{value}, l.cond(v)});
                        else
                            s.post(LinearLessThanEqualIf{sum, Integer{value}, l.cond(v)});
                    }
                    else {
                        if (ge)
                            s.post(LinearGreaterThanEqualIff{sum, Integer{value}, l.cond(v)});
                        else
                            s.post(LinearLessThanEqualIff{sum, Integer{value}, l.cond(v)});
                    }
                };
                return c;
            };

            for (bool conj : {true, false})
                g[conj ? "and" : "or"] = [conj](Maker & k) {
                    auto c = k.con(conj ? "and" : "or");
                    auto n = static_cast<int>(k.rng.in(0, 4));
                    int form = static_cast<int>(k.rng.in(0, 2));
                    vector<Lit> ls;
                    vector<Term> xs;
                    vector<J> lj;
                    Lit full;
                    Term y;
                    if (form == 0) {
                        for (int i = 0; i < n; ++i)
                            ls.push_back(k.lit());
                        full = k.lit();
                    }
                    else {
                        for (int i = 0; i < n; ++i) {
                            xs.push_back(k.rng.chance(3, 4) ? k.term(0, 1) : k.term(-1, 2));
                            ls.push_back({"ne", xs.back(), 0});
                        }
                        y = k.term(0, 1);
                        full = form == 1 ? Lit{"ne", y, 0} : Lit{"true", {}, 0};
                    }
                    for (auto & l : ls)
                        lj.push_back(l.json());
                    c.json.add("ls", lj).add("y", full.json());
                    c.variant = std::to_string(form);
                    c.post = [=](const Sink & s, const Ids & v) {
                        gcs::innards::Literals lits;
                        for (auto & l : ls)
                            if (form == 0)
                                lits.push_back(l.literal(v));
                        if (form == 0) {
                            if (conj)
                                s.post(And{lits, full.literal(v)});
                            else
                                s.post(Or{lits, full.literal(v)});
                        }
                        else if (form == 1) {
                            if (conj)
                                s.post(And{ids_of(xs, v), y.id(v)});
                            else
                                s.post(Or{ids_of(xs, v), y.id(v)});
                        }
                        else {
                            if (conj)
                                s.post(And{ids_of(xs, v)});
                            else
                                s.post(Or{ids_of(xs, v)});
                        }
                    };
                    return c;
                };

            g["mdd"] = [](Maker & k) {
                auto c = k.con("mdd");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto xs = k.terms(n, 0, 2);
                vector<long> nodes{1};
                for (int i = 0; i < n; ++i)
                    nodes.push_back(k.rng.in(1, 3));
                vector<vector<std::unordered_map<Integer, long>>> tr(n);
                vector<J> tj;
                for (int i = 0; i < n; ++i) {
                    vector<J> row;
                    for (int q = 0; q < nodes[i]; ++q) {
                        std::unordered_map<Integer, long> to;
                        vector<J> pj;
                        for (int val = -1; val <= 3; ++val)
                            if (k.rng.chance(2, 3)) {
                                long t = k.rng.in(0, nodes[i + 1] - 1);
                                to.emplace(Integer{val}, t);
                                pj.push_back(arr({J{val}, J{t}}));
                            }
                        tr[i].push_back(to);
                        row.push_back(J{pj});
                    }
                    tj.push_back(J{row});
                }
                vector<long> accept;
                for (int q = 0; q < nodes[n]; ++q)
                    if (k.rng.chance(2, 3))
                        accept.push_back(q);
                c.json.add("xs", terms_json(xs)).add("tr", tj).add("accept", accept);
                c.post = [=](const Sink & s, const Ids & v) { s.post(MDD{ids_of(xs, v), tr, nodes, accept}); };
                return c;
            };

            g["mindistance"] = [](Maker & k) {
                auto c = k.con("mindistance");
                auto p = static_cast<int>(k.rng.in(2, 4)), q = static_cast<int>(k.rng.in(1, 4));
                vector<Term> xs = k.terms(p, 0, q - 1 + (k.rng.chance(1, 6) ? 1 : 0));
                vector<vector<long long>> d(q, vector<long long>(q, 0)), r(p, vector<long long>(p, 0));
                for (int i = 0; i < q; ++i)
                    for (int j = 0; j < i; ++j)
                        d[i][j] = d[j][i] = k.rng.in(0, 5);
                bool req = k.rng.chance(1, 2), asymmetric = k.rng.chance(1, 3);
                for (int i = 0; i < p; ++i)
                    for (int j = 0; j < p; ++j)
                        r[i][j] = j < i && ! asymmetric ? r[j][i] : k.rng.in(0, 3);
                auto z = k.term(0, 5);
                auto prop = k.rng.in(0, 5);
                c.json.add("xs", terms_json(xs)).add("z", z.json()).add("d", grid_json(d)).add("req", req).add("r", grid_json(r));
                c.variant = std::to_string(prop);
                c.post = [=](const Sink & s, const Ids & v) {
                    using P = MinDistancePropagation;
                    std::optional<ArrayParam<MinDistance::Matrix>> rr;
                    if (req)
                        rr = ArrayParam<MinDistance::Matrix>{grid_of(r)};
                    if (prop == 5)
                        s.post(MinDistance{ids_of(xs, v), z.id(v), grid_of(d), rr});
                    else
                        s.post(MinDistance{ids_of(xs, v), z.id(v), grid_of(d), rr, prop == 0 ? P::CheckOnly : prop == 1 ? P::ForwardBound : prop == 2 ? P::PairSupport : prop == 3 ? P::ForwardBoundMatch : P::PairSupportMatch});
                };
                return c;
            };

            g["minmax"] = [](Maker & k) {
                auto c = k.con("minmax");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto xs = k.terms(n, -2, 4);
                auto y = k.term(-2, 4);
                bool min = k.rng.chance(1, 2);
                c.json.add("xs", terms_json(xs)).add("y", y.json()).add("min", min);
                c.post = [=](const Sink & s, const Ids & v) {
                    if (n == 2 && min)
                        s.post(Min{xs[0].id(v), xs[1].id(v), y.id(v)});
                    else if (n == 2)
                        s.post(Max{xs[0].id(v), xs[1].id(v), y.id(v)});
                    else if (min)
                        s.post(ArrayMin{ids_of(xs, v), y.id(v)});
                    else
                        s.post(ArrayMax{ids_of(xs, v), y.id(v)});
                };
                return c;
            };

            g["nvalue"] = [](Maker & k) {
                auto c = k.con("nvalue");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto xs = k.terms(n, 0, 3);
                auto y = k.term(0, n);
                c.json.add("xs", terms_json(xs)).add("y", y.json());
                c.post = [=](const Sink & s, const Ids & v) { s.post(NValue{y.id(v), ids_of(xs, v)}); };
                return c;
            };

            g["nogoods"] = [](Maker & k) {
                auto c = k.con("nogoods");
                vector<vector<Lit>> ns;
                vector<J> nj;
                for (int i = static_cast<int>(k.rng.in(0, 5)); i > 0; --i) {
                    vector<Lit> n;
                    vector<J> lj;
                    for (int q = static_cast<int>(k.rng.in(1, 4)); q > 0; --q) {
                        n.push_back(k.cond());
                        lj.push_back(n.back().json());
                    }
                    ns.push_back(n);
                    nj.push_back(J{lj});
                }
                bool refined = k.rng.chance(2, 3);
                c.json.add("ns", nj);
                c.variant = refined ? "refined" : "coarse";
                c.post = [=](const Sink & s, const Ids & v) {
                    vector<Nogood> r;
                    for (auto & n : ns) {
                        Nogood one;
                        for (auto & l : n)
                            one.push_back(l.cond(v));
                        r.push_back(one);
                    }
                    s.post(Nogoods{r, refined});
                };
                return c;
            };

            g["parity"] = [](Maker & k) {
                auto c = k.con("parity");
                bool vars = k.rng.chance(1, 2);
                vector<Lit> ls;
                vector<Term> xs;
                vector<J> lj;
                for (int i = static_cast<int>(k.rng.in(0, 4)); i > 0; --i) {
                    if (vars) {
                        xs.push_back(k.rng.chance(2, 3) ? k.term(0, 1) : k.term(-1, 2));
                        ls.push_back({"ne", xs.back(), 0});
                    }
                    else
                        ls.push_back(k.lit());
                    lj.push_back(ls.back().json());
                }
                c.json.add("ls", lj);
                c.post = [=](const Sink & s, const Ids & v) {
                    if (vars) {
                        s.post(ParityOdd{ids_of(xs, v)});
                        return;
                    }
                    gcs::innards::Literals lits;
                    for (auto & l : ls)
                        lits.push_back(l.literal(v));
                    s.post(ParityOdd{lits});
                };
                return c;
            };

            g["regular"] = [](Maker & k) {
                auto c = k.con("regular");
                auto n = static_cast<int>(k.rng.in(1, 5));
                auto xs = k.terms(n, 0, 2);
                auto q = static_cast<long>(k.rng.in(1, 4));
                bool dense = k.rng.chance(1, 3);
                vector<std::unordered_map<Integer, long>> tr(q);
                vector<vector<long>> table;
                vector<J> tj;
                for (long a = 0; a < q; ++a) {
                    vector<J> pj;
                    vector<long> row;
                    for (int val = dense ? 0 : -1; val <= 3; ++val) {
                        long t = k.rng.chance(2, 3) ? k.rng.in(0, q - 1) : -1;
                        row.push_back(t);
                        if (t >= 0) {
                            tr[a].emplace(Integer{val}, t);
                            pj.push_back(arr({J{val}, J{t}}));
                        }
                    }
                    table.push_back(row);
                    tj.push_back(J{pj});
                }
                vector<long> fin;
                for (long a = 0; a < q; ++a)
                    if (k.rng.chance(1, 2))
                        fin.push_back(a);
                auto strategy = k.rng.in(0, 3), shorts = k.rng.in(0, 2);
                c.json.add("xs", terms_json(xs)).add("tr", tj).add("fin", fin);
                c.variant = std::to_string(strategy) + std::to_string(shorts) + (dense ? "t" : "m");
                c.post = [=](const Sink & s, const Ids & v) {
                    auto r = dense ? Regular{ids_of(xs, v), q, table, fin} : Regular{ids_of(xs, v), q, tr, fin};
                    if (strategy == 0)
                        r.with_proof_strategy(proof_strategy::PerCall{});
                    else if (strategy == 1)
                        r.with_proof_strategy(proof_strategy::Bacchus{});
                    else if (strategy == 2)
                        r.with_proof_strategy(proof_strategy::Upfront{});
                    if (shorts)
                        r.with_short_reasons(shorts == 1);
                    s.post(r);
                };
                return c;
            };

            g["regex"] = [](Maker & k) {
                auto c = k.con("regex");
                auto n = static_cast<int>(k.rng.in(1, 4));
                auto xs = k.terms(n, 0, 3);
                std::function<string(int)> gen = [&](int depth) -> string {
                    auto pick = k.rng.in(0, depth <= 0 ? 3 : 10);
                    auto num = [&] { return std::to_string(k.rng.in(0, 3)); };
                    switch (pick) {
                    case 0:
                    case 1: return num() + " ";
                    case 2: return ".";
                    case 3: return string{"["} + (k.rng.chance(1, 2) ? "^" : "") + num() + (k.rng.chance(1, 2) ? "-" : " ") + num() + "]";
                    case 4: return "(" + gen(depth - 1) + "|" + gen(depth - 1) + ")";
                    case 5: return "(" + gen(depth - 1) + ")*";
                    case 6: return "(" + gen(depth - 1) + ")+";
                    case 7: return "(" + gen(depth - 1) + ")?";
                    case 8: return "(" + gen(depth - 1) + "){" + std::to_string(k.rng.in(0, 2)) + "," + (k.rng.chance(1, 2) ? "" : std::to_string(k.rng.in(2, 3))) + "}";
                    default: return gen(depth - 1) + gen(depth - 1);
                    }
                };
                auto re = gen(3);
                auto strategy = k.rng.in(0, 2);
                c.json.add("xs", terms_json(xs)).add("re", codes(re));
                c.variant = std::to_string(strategy) + " " + re;
                c.post = [=](const Sink & s, const Ids & v) {
                    Regular r{ids_of(xs, v), re};
                    if (strategy == 0)
                        r.with_proof_strategy(proof_strategy::PerCall{});
                    else if (strategy == 1)
                        r.with_proof_strategy(proof_strategy::Upfront{});
                    s.post(r);
                };
                return c;
            };

            g["seqprecede"] = [](Maker & k) {
                auto c = k.con("seqprecede");
                auto xs = k.terms(static_cast<int>(k.rng.in(1, 5)), k.rng.chance(1, 5) ? -1 : 0, 4);
                c.json.add("xs", terms_json(xs));
                c.post = [=](const Sink & s, const Ids & v) { s.post(SeqPrecedeChain{ids_of(xs, v)}); };
                return c;
            };

            g["smarttable"] = [](Maker & k) {
                auto c = k.con("smarttable");
                auto n = static_cast<int>(k.rng.in(1, 4));
                vector<Term> xs;
                vector<int> base;
                for (int i = 0; i < n; ++i) {
                    auto d = k.domain(0, 3);
                    base.push_back(k.new_var(d));
                }
                // sometimes through views, or with a variable more than once, and
                // sometimes with entries that are not a forest
                auto views = k.rng.chance(1, 3), cycles = k.rng.chance(1, 4);
                auto term = [&](int i) -> Term { return views && k.rng.chance(1, 2) ? Term{base[i], k.rng.chance(1, 2) ? 1 : -1, k.rng.in(-2, 2)} : Term{base[i], 1, 0}; };
                for (int i = 0; i < n; ++i)
                    xs.push_back(term(i));
                if (k.rng.chance(1, 6))
                    xs.push_back(term(static_cast<int>(k.rng.in(0, n - 1))));
                struct Entry
                {
                    int kind;
                    Term a, b;
                    long long val;
                    vector<long long> set;
                    int op;
                };
                vector<vector<Entry>> ts;
                vector<J> tj;
                static const char * ops[] = {"lt", "le", "eq", "ne", "gt", "ge"};
                for (int t = static_cast<int>(k.rng.in(0, 3)); t > 0; --t) {
                    vector<Entry> es;
                    vector<J> ej;
                    // binary entries form a forest
                    vector<int> parent(n);
                    for (int i = 0; i < n; ++i)
                        parent[i] = i;
                    std::function<int(int)> find = [&](int x) { return parent[x] == x ? x : find(parent[x]); };
                    for (int q = static_cast<int>(k.rng.in(0, 4)); q > 0; --q) {
                        auto a = static_cast<int>(k.rng.in(0, n - 1)), b = static_cast<int>(k.rng.in(0, n - 1));
                        Entry e{static_cast<int>(k.rng.in(0, 2)), term(a), term(b), views ? k.rng.in(-3, 4) : k.rng.in(0, 3), {}, static_cast<int>(k.rng.in(0, 5))};
                        if (e.kind == 0) {
                            if (cycles ? a == b : find(a) == find(b))
                                continue;
                            parent[find(a)] = find(b);
                            ej.push_back(Obj{}.add("e", "bin").add("a", e.a.json()).add("b", e.b.json()).add("op", ops[e.op]));
                        }
                        else if (e.kind == 1)
                            ej.push_back(Obj{}.add("e", "val").add("a", e.a.json()).add("v", e.val).add("op", ops[e.op]));
                        else {
                            for (int i = static_cast<int>(k.rng.in(0, 3)); i > 0; --i)
                                e.set.push_back(views ? k.rng.in(-3, 4) : k.rng.in(0, 3));
                            std::sort(e.set.begin(), e.set.end());
                            e.set.erase(std::unique(e.set.begin(), e.set.end()), e.set.end());
                            ej.push_back(Obj{}.add("e", "set").add("a", e.a.json()).add("set", e.set).add("in", e.op < 3));
                        }
                        es.push_back(e);
                    }
                    ts.push_back(es);
                    tj.push_back(J{ej});
                }
                c.json.add("xs", terms_json(xs)).add("ts", tj);
                auto shorts = k.rng.in(0, 2);
                c.post = [=](const Sink & s, const Ids & v) {
                    SmartTuples tuples;
                    for (auto & es : ts) {
                        vector<SmartEntry> row;
                        for (auto & e : es) {
                            auto a = e.a.id(v), b = e.b.id(v);
                            Integer val{e.val};
                            if (e.kind == 0)
                                row.push_back(e.op == 0 ? SmartTable::less_than(a, b) : e.op == 1 ? SmartTable::less_than_equal(a, b) : e.op == 2 ? SmartTable::equals(a, b) : e.op == 3 ? SmartTable::not_equals(a, b) : e.op == 4 ? SmartTable::greater_than(a, b) : SmartTable::greater_than_equal(a, b));
                            else if (e.kind == 1)
                                row.push_back(e.op == 0 ? SmartTable::less_than(a, val) : e.op == 1 ? SmartTable::less_than_equal(a, val) : e.op == 2 ? SmartTable::equals(a, val) : e.op == 3 ? SmartTable::not_equals(a, val) : e.op == 4 ? SmartTable::greater_than(a, val) : SmartTable::greater_than_equal(a, val));
                            else
                                row.push_back(e.op < 3 ? SmartTable::in_set(a, ints_of(e.set)) : SmartTable::not_in_set(a, ints_of(e.set)));
                        }
                        tuples.push_back(row);
                    }
                    SmartTable q{ids_of(xs, v), tuples};
                    if (shorts)
                        q.with_short_reasons(shorts == 1);
                    s.post(q);
                };
                return c;
            };

            g["sort"] = [](Maker & k) {
                auto c = k.con("sort");
                auto n = static_cast<int>(k.rng.in(1, 3));
                auto xs = k.terms(n, 0, 3), ys = k.terms(n, 0, 3);
                c.json.add("xs", terms_json(xs)).add("ys", terms_json(ys));
                c.post = [=](const Sink & s, const Ids & v) { s.post(Sort{ids_of(xs, v), ids_of(ys, v)}); };
                return c;
            };

            g["argsort"] = [](Maker & k) {
                auto c = k.con("argsort");
                auto n = static_cast<int>(k.rng.in(1, 3));
                long long off = k.rng.chance(1, 2) ? 0 : k.rng.in(-1, 2);
                auto xs = k.terms(n, 0, 3), ps = k.terms(n, off, off + n - 1);
                c.json.add("xs", terms_json(xs)).add("ps", terms_json(ps)).add("off", off);
                c.post = [=](const Sink & s, const Ids & v) { s.post(ArgSort{ids_of(xs, v), ids_of(ps, v), Integer{off}}); };
                return c;
            };

            for (bool neg : {false, true})
                g[neg ? "negtable" : "table"] = [neg](Maker & k) {
                    auto c = k.con(neg ? "negtable" : "table");
                    auto n = static_cast<int>(k.rng.in(1, 4));
                    auto xs = k.terms(n, 0, 3);
                    int form = static_cast<int>(k.rng.in(0, 3));
                    bool wild = form >= 2;
                    vector<vector<long long>> ts; // 99 for a wildcard
                    for (int t = static_cast<int>(k.rng.in(0, 7)); t > 0; --t) {
                        vector<long long> row;
                        for (int i = 0; i < n; ++i)
                            row.push_back(wild && k.rng.chance(1, 4) ? 99 : k.rng.in(-1, 4));
                        ts.push_back(row);
                    }
                    c.json.add("xs", terms_json(xs)).add("ts", grid_json(ts));
                    c.variant = std::to_string(form);
                    c.post = [=](const Sink & s, const Ids & v) {
                        ExtensionalTuples tuples = SimpleTuples{};
                        if (wild) {
                            WildcardTuples w;
                            for (auto & row : ts) {
                                vector<IntegerOrWildcard> r;
                                for (auto x : row)
                                    r.push_back(x == 99 ? IntegerOrWildcard{Wildcard{}} : IntegerOrWildcard{Integer{x}});
                                w.push_back(r);
                            }
                            if (form == 2)
                                tuples = ArrayParam<WildcardTuples>{std::move(w)};
                            else
                                tuples = ArrayParam<WildcardTuples>{std::make_shared<const WildcardTuples>(std::move(w))};
                        }
                        else if (form == 0)
                            tuples = ArrayParam<SimpleTuples>{grid_of(ts)};
                        else
                            tuples = ArrayParam<SimpleTuples>{std::make_shared<const SimpleTuples>(grid_of(ts))};
                        if (neg)
                            s.post(NegativeTable{ids_of(xs, v), std::move(tuples)});
                        else
                            s.post(Table{ids_of(xs, v), std::move(tuples)});
                    };
                    return c;
                };

            g["valueprecede"] = [](Maker & k) {
                auto c = k.con("valueprecede");
                auto xs = k.terms(static_cast<int>(k.rng.in(1, 4)), 0, 3);
                vector<long long> chain;
                for (int i = static_cast<int>(k.rng.in(0, 4)); i > 0; --i)
                    chain.push_back(k.rng.in(0, 4));
                if (k.rng.chance(3, 4)) {
                    vector<long long> d;
                    for (auto x : chain)
                        if (std::find(d.begin(), d.end(), x) == d.end())
                            d.push_back(x);
                    chain = d;
                }
                c.json.add("xs", terms_json(xs)).add("chain", chain);
                c.post = [=](const Sink & s, const Ids & v) {
                    if (chain.size() == 2)
                        s.post(ValuePrecede{Integer{chain[0]}, Integer{chain[1]}, ids_of(xs, v)});
                    else
                        s.post(ValuePrecede{ints_of(chain), ids_of(xs, v)});
                };
                return c;
            };

            return g;
        }();
        return all;
    }

    // A model of one or two constraints of the given kinds.
    inline auto make_model(Rng & rng, const vector<string> & kinds, long long limit, bool apart = false, bool optional_tasks = false, bool views = true) -> Model
    {
        Maker k(rng, limit);
        k.optional_tasks = optional_tasks;
        vector<Con> cons;
        for (auto & kind : kinds) {
            k.constants = static_cast<int>(rng.pick(vector<int>{6, 10, 30}));
            k.reuse = cons.empty() ? static_cast<int>(rng.pick(vector<int>{6, 12, 40})) : 2;
            if (apart) {
                k.reuse = 1000000;
                k.own_conditions = false;
            }
            k.viewed = views ? static_cast<int>(rng.pick(vector<int>{3, 6, 20})) : 1000000;
            cons.push_back(generators().at(kind)(k));
        }
        if (k.m.doms.empty())
            k.new_var({0, 1});
        k.m.cons = std::move(cons);
        return std::move(k.m);
    }

    inline auto all_kinds() -> vector<string>
    {
        vector<string> r;
        for (auto & [n, _] : generators())
            r.push_back(n);
        return r;
    }
}

#endif
