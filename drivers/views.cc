// Records handles, conditions and sums, for ExprTrace.tla.
#include "common.hh"
#include <gcs/constraints/innards/arithmetic_utils.hh>
#include <gcs/constraints/linear/utils.hh>
#include <gcs/expression.hh>
#include <gcs/innards/variable_id_utils.hh>
#include <gcs/variable_condition.hh>
#include <gcs/variable_id.hh>
#include <util/enumerate.hh>

#include <climits>
#include <functional>
#include <list>
#include <map>

using namespace verif;
using namespace gcs;
using namespace gcs::innards;

namespace
{
    constexpr int nv = 4;

    auto hj(const IntegerVariableID & v) -> J
    {
        Obj o;
        if (auto s = std::get_if<SimpleIntegerVariableID>(&v))
            o.add("k", "s").add("i", s->index).add("n", false).add("o", big(0));
        else if (auto w = std::get_if<ViewOfIntegerVariableID>(&v))
            o.add("k", "v").add("i", w->actual_variable.index).add("n", w->negate_first).add("o", big(w->then_add.raw_value));
        else
            o.add("k", "c").add("i", -1).add("n", false).add("o", big(std::get<ConstantIntegerVariableID>(v).const_value.raw_value));
        return o;
    }

    auto value(Rng & rng) -> long long
    {
        switch (rng.in(0, 9)) {
        case 0: return LLONG_MAX - rng.in(0, 2);
        case 1: return LLONG_MIN + rng.in(0, 2);
        case 2: return static_cast<long long>(rng.next() >> rng.in(1, 63)) * (rng.chance(1, 2) ? 1 : -1);
        default: return rng.in(-5, 5);
        }
    }

    auto small(Rng & rng) -> long long
    {
        return rng.chance(1, 6) ? rng.in(-1000000, 1000000) : rng.in(-4, 4);
    }

    template <typename V_>
    auto handle(Rng & rng, V_ val) -> IntegerVariableID
    {
        switch (rng.in(0, 3)) {
        case 0: return SimpleIntegerVariableID(static_cast<unsigned long long>(rng.in(0, nv - 1)));
        case 1: return ConstantIntegerVariableID(Integer(val(rng)));
        default: return ViewOfIntegerVariableID(SimpleIntegerVariableID(static_cast<unsigned long long>(rng.in(0, nv - 1))), rng.chance(1, 2), Integer(val(rng)));
        }
    }

    auto want(const char * k, long long i, bool n, __int128 o) -> J
    {
        return Obj().add("k", k).add("i", i).add("n", n).add("o", big(o));
    }

    template <typename O_>
    auto registers(O_ & out, Rng & rng) -> void
    {
        IntegerVariableID cur = ConstantIntegerVariableID(0_i);
        auto i = rng.in(0, nv - 1);
        auto o = value(rng);
        auto n = rng.chance(1, 2);
        switch (rng.in(0, 4)) {
        case 0:
            cur = SimpleIntegerVariableID(static_cast<unsigned long long>(i));
            out(ev("make").add("r", hj(cur)).add("want", want("s", i, false, 0)));
            break;
        case 1:
            cur = ViewOfIntegerVariableID(SimpleIntegerVariableID(static_cast<unsigned long long>(i)), n, Integer(o));
            out(ev("make").add("r", hj(cur)).add("want", want("v", i, n, o)));
            break;
        case 2:
            cur = ConstantIntegerVariableID(Integer(o));
            out(ev("make").add("r", hj(cur)).add("want", want("c", -1, false, o)));
            break;
        case 3:
            cur = constant_variable(Integer(o));
            out(ev("make").add("r", hj(cur)).add("want", want("c", -1, false, o)));
            break;
        case 4:
            cur = n ? IntegerVariableID(-17_c) : IntegerVariableID(42_c);
            out(ev("make").add("r", hj(cur)).add("want", want("c", -1, false, n ? -17 : 42)));
            break;
        }
        auto len = rng.in(1, 8);
        // towards zero, to meet the collapsing cases
        long long last = 0;
        for (int s = 0; s < len; ++s) {
            auto op = rng.in(0, 2);
            auto d = rng.chance(1, 4) ? 0 : rng.chance(1, 3) ? last : rng.chance(1, 3) && last != LLONG_MIN ? -last : value(rng);
            if (rng.chance(1, 6)) {
                if (auto w = std::get_if<ViewOfIntegerVariableID>(&cur))
                    d = op == 1 ? w->then_add.raw_value : w->then_add.raw_value == LLONG_MIN ? 0 : -w->then_add.raw_value;
                else if (auto c = std::get_if<ConstantIntegerVariableID>(&cur))
                    d = op == 1 ? c->const_value.raw_value : c->const_value.raw_value == LLONG_MIN ? 0 : -c->const_value.raw_value;
            }
            last = d;
            bool ok = true;
            IntegerVariableID next = cur;
            try {
                next = op == 0 ? cur + Integer(d) : op == 1 ? cur - Integer(d) : -cur;
            }
            catch (const IntegerOverflow &) {
                ok = false;
            }
            auto f = affine_of(next);
            out(ev(op == 0 ? "plus" : op == 1 ? "minus" : "neg")
                    .add("o", big(d))
                    .add("ok", ok)
                    .add("r", hj(next))
                    .add("affine",
                        Obj().add("c", big(f.coeff.raw_value)).add("i", f.var ? static_cast<long long>(f.var->index) : -1).add("o", big(f.offset.raw_value)))
                    .add("isconst", is_constant_variable(next))
                    .add("const", is_constant_variable(next) ? big(constant_value_of(next).raw_value) : big(0)));
            cur = next;
        }
    }

    template <typename O_>
    auto compares(O_ & out, Rng & rng) -> void
    {
        std::vector<IntegerVariableID> p;
        for (int i = 0; i < 6; ++i)
            p.push_back(handle(rng, [](Rng & r) { return r.in(-1, 1); }));
        // the same thing reached differently
        p.push_back(p[0]);
        if (rng.chance(1, 2))
            p.push_back((p[1] + 1_i) - 1_i);
        if (rng.chance(1, 2))
            p.push_back(-(-p[2]));
        std::hash<IntegerVariableID> h;
        for (auto & a : p)
            for (auto & b : p)
                out(ev("compare").add("a", hj(a)).add("b", hj(b)).add("eq", a == b).add("lt", a < b).add("gt", a > b).add("hash", h(a) == h(b)));
        for (int i = 0; i < 20; ++i) {
            auto &a = rng.pick(p), &b = rng.pick(p), &c = rng.pick(p);
            out(ev("order").add("ab", a < b).add("bc", b < c).add("ac", a < c));
        }
    }

    template <typename O_>
    auto groups(O_ & out, Rng & rng) -> void
    {
        std::vector<IntegerVariableID> p;
        auto n = rng.in(0, 4);
        auto kind = rng.in(0, 3);
        for (int i = 0; i < n; ++i) {
            auto v = handle(rng, small);
            if (kind < 3 && ! (i == n - 1 && rng.chance(1, 3)))
                while (static_cast<int>(v.index()) != kind)
                    v = handle(rng, small);
            p.push_back(v);
        }
        auto given = std::vector<J>();
        for (auto & v : p)
            given.push_back(hj(v));
        std::string k;
        auto got = std::vector<J>();
        std::visit(
            [&]<typename T_>(const std::vector<T_> & r) {
                k = std::is_same_v<T_, SimpleIntegerVariableID> ? "s"
                    : std::is_same_v<T_, ConstantIntegerVariableID> ? "c"
                    : std::is_same_v<T_, ViewOfIntegerVariableID> ? "v" : "mixed";
                for (auto & v : r)
                    got.push_back(hj(v));
            },
            as_homogeneous(p));
        out(ev("homog").add("given", J{given}).add("got", J{got}).add("kind", k));

        std::vector<Integer> vals;
        std::vector<J> vj, cj;
        for (int i = 0; i < n; ++i) {
            vals.push_back(Integer(value(rng)));
            vj.push_back(big(vals.back().raw_value));
        }
        for (auto & c : as_constant_variables(vals))
            cj.push_back(hj(c));
        out(ev("constants").add("given", J{vj}).add("got", J{cj}));
    }

    template <typename V_>
    auto condj(const VariableConditionFrom<V_> & c) -> J
    {
        const char * n = "?";
        switch (c.op) {
            using enum VariableConditionOperator;
        case Equal: n = "eq"; break;
        case NotEqual: n = "ne"; break;
        case GreaterEqual: n = "ge"; break;
        case Less: n = "lt"; break;
        case InRange: n = "in"; break;
        case NotInRange: n = "out"; break;
        }
        return Obj().add("v", hj(IntegerVariableID{c.var})).add("op", n).add("lo", big(c.value.raw_value)).add("hi", big(c.upper_value.raw_value));
    }

    template <typename O_, typename V_>
    auto condition(O_ & out, const V_ & x, const std::string & rel, Integer a, Integer b) -> void
    {
        auto e = ev("cond").add("rel", rel).add("x", hj(IntegerVariableID{x})).add("a", big(a.raw_value)).add("b", big(b.raw_value));
        try {
            auto c = rel == "==" ? x == a : rel == "!=" ? x != a : rel == "<" ? x < a : rel == "<=" ? x <= a : rel == ">" ? x > a : rel == ">=" ? x >= a
                : rel == "in" ? in_range(x, a, b) : not_in_range(x, a, b);
            VariableConditionFrom<IntegerVariableID> wide = c;
            e.add("ok", "ok").add("d", condj(c)).add("neg", condj(! c)).add("wide", condj(wide)).add("back", condj(! ! c));
            e.add("same", J{std::vector<bool>{c == c, c == ! c, wide == ! ! wide}});
        }
        catch (const IntegerOverflow &) {
            e.add("ok", "overflow");
        }
        catch (const InvalidProblemDefinitionException &) {
            e.add("ok", "invalid");
        }
        out(e);
    }

    template <typename O_>
    auto conditions(O_ & out, Rng & rng) -> void
    {
        static const std::vector<std::string> rels{"==", "!=", "<", "<=", ">", ">=", "in", "out"};
        for (auto & rel : rels)
            for (int k = 0; k < 2; ++k) {
                auto a = value(rng), b = rng.chance(1, 2) ? value(rng) : rng.in(-2, 2) + (a > LLONG_MAX - 5 || a < LLONG_MIN + 5 ? 0 : a);
                auto h = handle(rng, value);
                std::visit([&](const auto & v) { condition(out, v, rel, Integer(a), Integer(b)); }, h);
                condition(out, h, rel, Integer(a), Integer(b));
            }
    }

    template <typename T_>
    auto termsj(const std::vector<Weighted<T_>> & ts) -> J
    {
        std::vector<J> r;
        for (auto & t : ts)
            r.push_back(Obj().add("c", big(t.coefficient.raw_value)).add("v", hj(IntegerVariableID{t.variable})));
        return J{r};
    }

    template <typename O_>
    auto sums(O_ & out, Rng & rng) -> void
    {
        out(ev("newsum"));
        WeightedSum sum;
        bool unit = rng.chance(1, 2), extreme = rng.chance(1, 8);
        auto coeff = [&](Rng & r) { return extreme && r.chance(1, 3) ? value(r) : unit ? (r.chance(1, 5) ? r.in(-1, 1) : (r.chance(3, 4) ? 1 : -1)) : small(r); };
        auto n = rng.in(0, 6);
        for (int i = 0; i < n; ++i) {
            auto c = coeff(rng);
            auto v = handle(rng, small);
            if (rng.chance(1, 2))
                sum = sum + Integer(c) * v;
            else if (auto w = std::get_if<SimpleIntegerVariableID>(&v))
                sum += Integer(c) * *w;
            else
                sum += Integer(c) * v;
            out(ev("term").add("c", big(c)).add("v", hj(v)).add("terms", termsj(sum.terms)));
        }

        for (int k = 0; k < 3; ++k) {
            bool weighted = rng.chance(1, 2);
            auto rc = extreme ? value(rng) : small(rng);
            auto rv = handle(rng, small);
            const char * rel = k == 0 ? "<=" : k == 1 ? ">=" : "==";
            auto e = ev(rel).add("weighted", weighted).add("rc", big(rc)).add("rv", hj(rv)).add("extreme", extreme);
            try {
                if (k == 2) {
                    auto r = weighted ? (sum == Integer(rc) * rv) : (sum == Integer(rc));
                    e.add("ok", true).add("terms", termsj(r.lhs.terms)).add("rhs", big(r.rhs.raw_value)).add("nok", false);
                }
                else {
                    auto r = k == 0 ? (weighted ? (sum <= Integer(rc) * rv) : (sum <= Integer(rc))) : (weighted ? (sum >= Integer(rc) * rv) : (sum >= Integer(rc)));
                    e.add("ok", true).add("terms", termsj(r.lhs.terms)).add("rhs", big(r.rhs.raw_value));
                    try {
                        auto nr = negate_inequality(r);
                        e.add("nterms", termsj(nr.lhs.terms)).add("nrhs", big(nr.rhs.raw_value)).add("nok", true);
                    }
                    catch (const IntegerOverflow &) {
                        e.add("nok", false);
                    }
                }
            }
            catch (const IntegerOverflow &) {
                e.add("ok", false).add("nok", false);
            }
            out(e);
        }

        if (! extreme) {
            auto [tidied, modifier] = tidy_up_linear(sum);
            auto e = ev("tidy").add("modifier", big(modifier.raw_value));
            std::visit(
                [&]<typename T_>(const SumOf<T_> & s) {
                    std::vector<Weighted<SimpleIntegerVariableID>> ts;
                    for (auto & t : s.terms)
                        ts.push_back(Weighted<SimpleIntegerVariableID>{get_coeff(t), get_var(t)});
                    e.add("terms", termsj(ts));
                    e.add("form", std::is_same_v<T_, SimpleIntegerVariableID> ? "sum" : std::is_same_v<T_, PositiveOrNegative<SimpleIntegerVariableID>> ? "signed" : "weighted");
                },
                tidied);
            out(e);
        }
    }

    template <typename O_>
    auto enumerates(O_ & out, Rng & rng) -> void
    {
        std::vector<int> v;
        auto n = rng.in(0, 5);
        for (int i = 0; i < n; ++i)
            v.push_back(static_cast<int>(rng.in(0, 9)));
        std::vector<J> got;
        for (const auto & [i, x] : enumerate(v))
            got.push_back(arr({J{i}, J{x}}));
        out(ev("enumerate").add("given", J{v}).add("got", J{got}));
        got.clear();
        std::list<int> li(v.begin(), v.end());
        for (const auto & [i, x] : enumerate(std::move(li)))
            got.push_back(arr({J{i}, J{x}}));
        out(ev("enumerate").add("given", J{v}).add("got", J{got}));
        // written through
        for (auto [i, x] : enumerate(v))
            x = static_cast<int>(i) * 2;
        got.clear();
        std::vector<int> twice;
        for (std::size_t i = 0; i < v.size(); ++i) {
            twice.push_back(static_cast<int>(i) * 2);
            got.push_back(arr({J{i}, J{v[i]}}));
        }
        out(ev("enumerate").add("given", J{twice}).add("got", J{got}));
    }
}

auto main(int argc, char ** argv) -> int
{
    Args a(argc, argv);
    Shards out(a.out, "views", a.shards);
    Rng rng(a.seed);
    auto rounds = a.thorough ? 6000 : 350;
    for (int i = 0; i < rounds; ++i) {
        for (int k = 0; k < 4; ++k)
            registers(out, rng);
        if (i % 3 == 0)
            compares(out, rng);
        groups(out, rng);
        conditions(out, rng);
        for (int k = 0; k < 4; ++k)
            sums(out, rng);
        enumerates(out, rng);
        out.next();
    }
}
