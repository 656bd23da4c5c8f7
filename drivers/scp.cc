// Writes random models to the textual format, reads those texts and altered
// ones back, runs the command line solver on them, and records what happened.

#include "model.hh"

#include <sys/resource.h>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

#include <gcs/innards/variable_id_utils.hh>
#include <gcs/scp_reader.hh>

#include <cstring>
#include <filesystem>
#include <sys/wait.h>

using namespace verif;
using namespace gcs;

namespace
{
    struct Stop
    {
    };

    // ---- a text as a tree of its own, for altering it
    struct Node
    {
        bool list = false;
        string atom;
        vector<Node> kids;
    };

    auto parse(const string & s, std::size_t & at) -> Node
    {
        auto space = [&] { while (at < s.size() && std::isspace(static_cast<unsigned char>(s[at]))) ++at; };
        space();
        Node n;
        if (at < s.size() && s[at] == '(') {
            n.list = true;
            ++at;
            for (;;) {
                space();
                if (at >= s.size())
                    return n;
                if (s[at] == ')') {
                    ++at;
                    return n;
                }
                n.kids.push_back(parse(s, at));
            }
        }
        while (at < s.size() && s[at] != '(' && s[at] != ')' && ! std::isspace(static_cast<unsigned char>(s[at])))
            n.atom += s[at++];
        return n;
    }

    auto show(const Node & n) -> string
    {
        if (! n.list)
            return n.atom;
        string r = "(";
        for (std::size_t i = 0; i < n.kids.size(); ++i)
            r += (i ? " " : "") + show(n.kids[i]);
        return r + ")";
    }

    auto is_int(const string & s) -> bool
    {
        return ! s.empty() && (std::isdigit(static_cast<unsigned char>(s[0])) || (s[0] == '-' && s.size() > 1));
    }

    const vector<string> keywords{"abs", "all_different", "all_equal", "circuit", "array_min", "array_max", "boundsglobalcardinality",
        "boundsglobalcardinalityclosed", "gacglobalcardinality", "gacglobalcardinalityclosed", "increasing", "strictly_increasing", "decreasing",
        "strictly_decreasing", "sort", "arg_sort", "in", "element", "element_2d", "count", "nvalue", "inverse", "and", "or", "parity", "plus", "minus",
        "multiply", "divide", "modulus", "power", "disjunctive", "disjunctive_strict", "disjunctive_optional", "disjunctive_strict_optional",
        "disjunctive2d", "disjunctive2d_strict", "cumulative", "cumulative_optional", "regular", "table", "negative_table", "smart_table",
        "all_different_except", "symmetric_all_different", "at_most_one", "at_most_one_smart_table", "among", "value_precede", "seq_precede_chain",
        "knapsack", "difference", "mdd", "nogoods", "lex_smart_table", "binpacking", "min_distance"};
    const vector<string> families{"less_than", "less_equal", "greater_than", "greater_equal", "lex_less_than", "lex_less_equal", "lex_greater_than",
        "lex_greater_equal", "lin_equals", "lin_not_equals", "lin_less_equal", "equals", "not_equals"};
    const vector<string> suffixes{"", "", "_if", "_iff", "_not", "_not_if", "_x", "s", "_iff_if", "_than", "_equal", "_optional", "_strict", "2d"};

    struct Alterer
    {
        Rng & rng;
        Node & top;
        vector<Node *> all, ints, atoms, names, lists, cons, words;
        vector<string> variables;

        auto collect(Node & n, int depth) -> void
        {
            all.push_back(&n);
            if (n.list) {
                lists.push_back(&n);
                for (auto & k : n.kids)
                    collect(k, depth + 1);
            }
            else {
                atoms.push_back(&n);
                if (is_int(n.atom))
                    ints.push_back(&n);
                else if (std::find(variables.begin(), variables.end(), n.atom) != variables.end())
                    names.push_back(&n);
            }
        }

        Alterer(Rng & r, Node & t) : rng(r), top(t)
        {
            if (top.kids.size() == 4) {
                for (auto & d : top.kids[1].kids)
                    if (d.list && ! d.kids.empty())
                        variables.push_back(d.kids[0].atom);
                for (auto & c : top.kids[2].kids)
                    if (c.list) {
                        cons.push_back(&c);
                        if (c.kids.size() > 1 && ! c.kids[1].list)
                            words.push_back(&c.kids[1]);
                    }
            }
            collect(top, 0);
        }

        auto some_int() -> string
        {
            if (rng.chance(1, 12))
                return rng.pick(vector<string>{"007", "-0", "+1", "1.5", "0x1", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "--1", "1-", "-"});
            return std::to_string(rng.in(-2, 5));
        }
        auto some_var() -> string
        {
            return variables.empty() || rng.chance(1, 3) ? some_int() : rng.pick(variables);
        }
        auto some_word() -> string
        {
            return rng.chance(1, 2) ? rng.pick(keywords) : rng.pick(families) + rng.pick(suffixes);
        }
        auto some_node() -> Node
        {
            switch (rng.in(0, 5)) {
            case 0: return {false, some_int(), {}};
            case 1: return {false, some_var(), {}};
            case 2: return {true, "", {{false, some_var(), {}}, {false, rng.pick(vector<string>{"=", "!=", ">=", "<", "<=", "+"}), {}}, {false, some_int(), {}}}};
            case 3: return *rng.pick(all);
            case 4: return {true, "", {}};
            default: return {false, rng.pick(vector<string>{"*", "1", "0", "x", "_1", "loads", "capacities", "in", "notin", "<", ">=", "enumerate", "decide"}), {}};
            }
        }

        auto once() -> void
        {
            if (lists.empty() || all.empty())
                return;
            switch (rng.in(0, 15)) {
            case 0:
            case 1:
            case 2:
                if (! ints.empty())
                    rng.pick(ints)->atom = some_int();
                break;
            case 3:
            case 4:
                if (! names.empty())
                    rng.pick(names)->atom = some_var();
                break;
            case 5:
                if (! words.empty())
                    rng.pick(words)->atom = some_word();
                break;
            case 6:
                if (! words.empty()) {
                    auto w = rng.pick(words);
                    w->atom = w->atom + rng.pick(suffixes);
                }
                break;
            case 7: // another of its family
                if (! words.empty()) {
                    auto w = rng.pick(words);
                    vector<string> like;
                    for (auto & f : families)
                        for (auto & s : vector<string>{"", "_if", "_iff", "_not", "_not_if"})
                            if (w->atom.substr(0, 4) == f.substr(0, 4) && w->atom.ends_with("_iff") == (s == "_iff") && w->atom.ends_with("_if") == s.ends_with("_if"))
                                like.push_back(f + s);
                    for (auto & f : keywords)
                        if (f.substr(0, 4) == w->atom.substr(0, 4))
                            like.push_back(f);
                    if (! like.empty())
                        w->atom = rng.pick(like);
                }
                break;
            case 8: { // a child gone
                auto n = rng.pick(lists);
                if (! n->kids.empty())
                    n->kids.erase(n->kids.begin() + rng.in(0, static_cast<long long>(n->kids.size()) - 1));
                break;
            }
            case 9: { // a child twice
                auto n = rng.pick(lists);
                if (! n->kids.empty()) {
                    auto k = rng.pick(n->kids);
                    n->kids.insert(n->kids.begin() + rng.in(0, static_cast<long long>(n->kids.size())), k);
                }
                break;
            }
            case 10: { // two children exchanged
                auto n = rng.pick(lists);
                if (n->kids.size() > 1) {
                    auto i = rng.in(0, static_cast<long long>(n->kids.size()) - 1), j = rng.in(0, static_cast<long long>(n->kids.size()) - 1);
                    std::swap(n->kids[i], n->kids[j]);
                }
                break;
            }
            case 11: *rng.pick(all) = some_node(); break;
            case 12: { // wrapped, or unwrapped
                auto n = rng.pick(all);
                if (n->list && n->kids.size() == 1 && rng.chance(1, 2)) {
                    auto k = n->kids[0];
                    *n = k;
                }
                else {
                    Node k = *n;
                    *n = Node{true, "", {k}};
                }
                break;
            }
            case 13: { // something more
                auto n = rng.pick(lists);
                n->kids.insert(n->kids.begin() + rng.in(0, static_cast<long long>(n->kids.size())), some_node());
                break;
            }
            case 14: // a label
                if (! cons.empty()) {
                    auto c = rng.pick(cons);
                    if (! c->kids.empty())
                        c->kids[0] = {false, rng.pick(vector<string>{"c", "_1", "_2", "_01", "_", "_x1", "c[0]", "c[", "c{1}", "3c", "v1", "a-b", "a.b", "_99999999999999999999"}), {}};
                }
                break;
            default: // a bound, the objective or the version
                if (top.kids.size() == 4 && rng.chance(1, 2))
                    top.kids[3] = Node{true, "", {{false, "prob_type", {}}, rng.chance(1, 3) ? Node{false, rng.pick(vector<string>{"decide", "enumerate", "minimize", "satisfy"}), {}} : Node{true, "", {{false, rng.pick(vector<string>{"minimize", "maximize", "maximise"}), {}}, {false, rng.chance(1, 6) ? "nobody" : some_var(), {}}}}}};
                else if (top.kids.size() == 4 && ! top.kids[1].kids.empty()) {
                    auto & some = top.kids[1].kids;
                    auto & v = some[static_cast<size_t>(rng.in(0, static_cast<long long>(some.size()) - 1))];
                    if (v.kids.size() == 3)
                        v.kids[static_cast<size_t>(rng.in(1, 2))].atom = std::to_string(rng.in(-3, 6));
                    else if (v.kids.size() < 3)
                        v.atom = rng.pick(vector<string>{"variable", "vars", ""});
                }
            }
        }
    };

    auto alter_text(Rng & rng, string s) -> string
    {
        static const vector<char> junk = [] { string t = "() 01-_xv*=<>!+\t\n"; return vector<char>(t.begin(), t.end()); }();
        if (s.empty())
            return s;
        auto at = rng.in(0, static_cast<long long>(s.size()) - 1);
        switch (rng.in(0, 3)) {
        case 0: s.erase(at, 1); break;
        case 1: s.insert(at, 1, rng.pick(junk)); break;
        case 2: s[at] = rng.pick(junk); break;
        default: s = s.substr(0, at);
        }
        return s;
    }

    // ---- what reading gives
    struct Seen
    {
        vector<string> names, labels;
        vector<bool> named;
        vector<J> doms, map;
        J obj{vector<int>{}};
    };

    // values too large for the specification stand for one large value
    auto shown(Integer v) -> long long
    {
        return v.raw_value >= 100000000 ? 1000000000 : v.raw_value <= -100000000 ? -1000000000 : v.raw_value;
    }

    auto handle_json(const Problem & p, const IntegerVariableID & v) -> J
    {
        auto position = [&](const IntegerVariableID & x) -> int {
            int i = 1;
            for (const auto & [id, lo, hi, name] : p.each_variable_with_bounds_and_name()) {
                if (IntegerVariableID{id} == x)
                    return i;
                ++i;
            }
            return -1;
        };
        if (auto x = std::get_if<SimpleIntegerVariableID>(&v))
            return arr({J{position(*x)}, J{1}, J{0}});
        if (auto x = std::get_if<ViewOfIntegerVariableID>(&v))
            return arr({J{position(x->actual_variable)}, J{x->negate_first ? -1 : 1}, J{shown(x->then_add)}});
        return arr({J{0}, J{1}, J{shown(std::get<ConstantIntegerVariableID>(v).const_value)}});
    }

    // the minimised constant is written with the sign of its document
    auto objective_json(const Problem & p, const std::optional<IntegerVariableID> & o) -> J
    {
        if (! o)
            return J{vector<int>{}};
        return arr({handle_json(p, *o)});
    }

    struct Runner
    {
        const Args & args;
        Shards & out;
        Progress progress;
        string base, tool;
        bool with_tool = true;
        long unwritten = 0, written = 0;

        // the text of a problem, or why there is none
        auto write(Problem & p, string & why) -> std::optional<string>
        {
            for (auto x : {".scp", ".opb", ".pbp", ".varmap"})
                std::filesystem::remove(base + x);
            try {
                SolveCallbacks cb;
                cb.after_proof_started = [](const CurrentState &) -> void { throw Stop{}; };
                (void) solve_with(p, std::move(cb), ProofOptions{base});
                why = "never written";
            }
            catch (const Stop &) {
                std::ifstream f(base + ".scp");
                std::stringstream t;
                t << f.rdbuf();
                return t.str();
            }
            catch (const std::exception & e) {
                why = e.what();
            }
            return std::nullopt;
        }

        auto solutions(Problem & p, Obj & o) -> bool
        {
            vector<vector<long long>> sols;
            vector<IntegerVariableID> vs;
            for (const auto & [id, lo, hi, name] : p.each_variable_with_bounds_and_name())
                vs.push_back(id);
            long nodes = 0;
            bool complete = true;
            string solved = "ok";
            try {
                SolveCallbacks cb;
                cb.solution = [&](const CurrentState & s) {
                    vector<long long> a;
                    for (auto & v : vs)
                        a.push_back(shown(s(v)));
                    sols.push_back(a);
                    if (sols.size() > 3500)
                        complete = false;
                    return complete;
                };
                cb.trace = [&](const CurrentState &) {
                    if (++nodes > 30000)
                        complete = false;
                    return complete;
                };
                (void) solve_with(p, std::move(cb));
            }
            catch (const std::exception & e) {
                solved = "refused";
                complete = false;
            }
            o.add("sols", sols).add("complete", complete).add("solved", solved);
            return complete;
        }

        // same: the text is the solver's own, and must come out unchanged. Reading happens in a process
        // of its own, which may not live to tell.
        auto read(const string & text, bool same, Rng & rng) -> void
        {
            auto told = base + ".told";
            std::filesystem::remove(told);
            auto child = fork();
            if (child == 0) {
                rlimit cpu{12, 14};
                setrlimit(RLIMIT_CPU, &cpu);
                rlimit none{0, 0};
                setrlimit(RLIMIT_CORE, &none);
                std::ofstream f(told);
                auto r = tell(text, same, f);
                f.close();
                _exit(r);
            }
            int status = 0;
            waitpid(child, &status, 0);
            bool usable = false;
            if (WIFEXITED(status)) {
                usable = WEXITSTATUS(status) == 1;
                std::ifstream f(told);
                string line;
                while (std::getline(f, line))
                    out.raw(line);
            }
            else
                out(ev("read").add("outcome", WIFSIGNALED(status) && (WTERMSIG(status) == SIGXCPU || WTERMSIG(status) == SIGKILL) ? "slow" : "killed").add("what", WIFSIGNALED(status) ? WTERMSIG(status) : 0));
            if (with_tool && usable && rng.chance(1, same ? 2 : 3))
                run_tool(text, rng);
        }

        auto tell(const string & text, bool same, std::ostream & to) -> int
        {
            Obj o = ev("read");
            string outcome = "ok", what;
            bool complete = false;
            std::optional<string> again;
            try {
                Problem p;
                auto m = read_scp(p, text);
                vector<string> labels;
                vector<bool> named;
                vector<J> doms, map;
                int i = 0;
                for (const auto & [id, lo, hi, name] : p.each_variable_with_bounds_and_name()) {
                    ++i;
                    doms.push_back(arr({J{shown(lo)}, J{shown(hi)}}));
                    for (auto & [n, v] : m.variables)
                        if (v == IntegerVariableID{id})
                            map.push_back(arr({J{n}, J{i}}));
                }
                while (map.size() < m.variables.size())
                    map.push_back(arr({J{"?"}, J{0}}));
                for (const auto & c : p.each_constraint()) {
                    labels.push_back(as_string(c.constraint_id()));
                    named.push_back(std::holds_alternative<NamedConstraint>(c.constraint_id()));
                }
                o.add("map", map).add("doms", doms).add("labels", labels).add("named", named).add("obj", objective_json(p, m.minimise_variable));
                complete = solutions(p, o);
                Problem q;
                auto mq = read_scp(q, text);
                if (mq.minimise_variable)
                    q.minimise(*mq.minimise_variable);
                string ignored;
                again = write(q, ignored);
            }
            catch (const ScpUnsupportedConstraintError & e) {
                outcome = "unsupported";
            }
            catch (const std::exception & e) {
                outcome = "error";
                what = e.what();
            }
            o.add("outcome", outcome).add("what", what);
            to << o.str() << "\n";
            if (again && outcome == "ok")
                to << ev("again").add("text", codes(*again)).add("same", same).str() << "\n";
            return outcome != "ok" || complete ? 1 : 0;
        }

        auto run(const string & options, vector<string> & lines, bool & said) -> int
        {
            auto command = "cd '" + args.out + "' && timeout 60 '" + tool + "' " + options + " 2>'" + base + ".err'";
            auto f = popen(command.c_str(), "r");
            string all;
            char buffer[4096];
            while (auto n = std::fread(buffer, 1, sizeof buffer, f))
                all.append(buffer, n);
            auto status = pclose(f);
            string line;
            for (auto c : all)
                if (c == '\n') {
                    lines.push_back(line);
                    line.clear();
                }
                else
                    line += c;
            if (! line.empty())
                lines.push_back(line);
            std::error_code e;
            said = std::filesystem::file_size(base + ".err", e) > 0;
            return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
        }

        auto run_tool(const string & text, Rng & rng) -> void
        {
            {
                std::ofstream f(base + ".in");
                f << text;
            }
            bool all = rng.chance(1, 2), only = rng.chance(1, 6), prove = rng.chance(1, 8), stats = rng.chance(1, 4);
            // an objective that is a constant cannot be proved
            if (text.find("(minimize") != string::npos || text.find("(maximize") != string::npos)
                prove = false;
            vector<string> options;
            if (all)
                options.push_back("--all");
            if (only)
                options.push_back("--parse-only");
            if (prove) {
                options.push_back("--prove");
                if (rng.chance(1, 2))
                    options.push_back("--proof-files-basename=" + base + ".proof");
                else
                    options.push_back("--proof-files-basename " + base + ".proof");
            }
            if (stats)
                options.push_back("--stats");
            options.push_back("'" + base + ".in'");
            rng.shuffle(options);
            string line;
            for (auto & x : options)
                line += (line.empty() ? "" : " ") + x;
            for (auto x : {".proof.scp", ".proof.opb", ".proof.pbp", ".proof.varmap"})
                std::filesystem::remove(base + x);
            vector<string> lines;
            bool said = false;
            auto status = run(line, lines, said);
            if (lines.size() > 4000)
                return;
            out(ev("tool").add("all", all).add("parse", only).add("prove", prove).add("stats", stats).add("status", status).add("out", lines).add("said", said));
            if (prove && ! only && status == 0) {
                std::ifstream f(base + ".proof.scp");
                std::stringstream t;
                t << f.rdbuf();
                out(ev("again").add("text", codes(t.str())).add("same", false));
            }
        }

        auto usage() -> void
        {
            for (auto & [what, options] : vector<std::pair<string, string>>{{"help", "--help"}, {"nothing", ""}, {"option", "--no-such-thing '" + base + ".in'"}, {"file", "'" + base + ".nowhere'"}, {"help", "--help '" + base + ".nowhere'"}}) {
                vector<string> lines;
                bool said = false;
                auto status = run(options, lines, said);
                out(ev("usage").add("what", what).add("status", status).add("said", said || ! lines.empty()));
            }
        }

        auto document(const string & text, bool written) -> void
        {
            progress(text);
            out(ev("doc").add("text", codes(text)).add("written", written));
        }

        auto round(Rng & rng, const vector<string> & kinds) -> void
        {
            bool views = rng.chance(1, 5);
            auto m = make_model(rng, kinds, 160, false, false, views);
            Problem p;
            Ids ids;
            vector<string> names, labels;
            vector<J> doms, cons;
            int anon = 0, number = 0;
            vector<string> spare{"x[0]", "x[1]", "a-b", "__z", "Q{3}[1]", "B", "a", "b9", "_y_", "Zz"};
            rng.shuffle(spare);
            auto style = rng.in(0, 3);
            for (std::size_t i = 0; i < m.doms.size(); ++i) {
                std::optional<string> name;
                if (style == 0)
                    name = "v" + std::to_string(i + 1);
                else if (style == 1)
                    name = spare[i % spare.size()] + (i >= spare.size() ? std::to_string(i) : "");
                else if (rng.chance(1, 2))
                    name = rng.chance(1, 2) ? "v" + std::to_string(i + 1) : spare[i % spare.size()] + (i >= spare.size() ? std::to_string(i) : "");
                auto & d = m.doms[i];
                if (m.ranges[i])
                    ids.push_back(p.create_integer_variable(Integer{d.front()}, Integer{d.back()}, name));
                else {
                    ids.push_back(p.create_integer_variable(ints_of(d), name));
                    labels.push_back("_" + std::to_string(++number));
                    cons.push_back(Obj{}.add("k", "in").add("x", Term{static_cast<int>(i) + 1, 1, 0}.json()).add("xs", vector<J>{}).add("vals", d));
                }
                names.push_back(name ? *name : "_" + std::to_string(++anon));
                doms.push_back(arr({J{d.front()}, J{d.back()}}));
            }
            int given = 0;
            Sink sink{[&](const Constraint & c) {
                if (rng.chance(1, 2)) {
                    p.post(c);
                    labels.push_back("_" + std::to_string(++number));
                }
                else {
                    auto n = rng.pick(vector<string>{"c", "con[", "k-"}) + std::to_string(++given);
                    if (n.starts_with("con["))
                        n += "]";
                    p.post_named(c, n);
                    labels.push_back(n);
                }
            }};
            J obj{vector<int>{}};
            bool objective_known = false;
            try {
                for (auto & c : m.cons) {
                    c.post(sink, ids);
                    cons.push_back(c.json);
                }
            }
            catch (const std::exception &) {
                return; // refused when made: another property's business
            }
            if (rng.chance(1, 2)) {
                Term t{static_cast<int>(rng.in(1, static_cast<long long>(ids.size()))), 1, 0};
                if (rng.chance(1, 8)) {
                    t.c = rng.chance(1, 2) ? 1 : -1;
                    t.o = rng.in(-2, 2);
                }
                if (rng.chance(1, 12))
                    t = Term{0, 1, rng.in(-2, 2)};
                if (rng.chance(1, 2)) {
                    p.minimise(t.id(ids));
                    obj = arr({t.json()});
                }
                else {
                    p.maximise(t.id(ids));
                    t.c = -t.c;
                    t.o = -t.o;
                    obj = arr({t.json()});
                }
            }
            progress(m.describe());
            string why;
            auto text = write(p, why);
            if (! text) {
                ++unwritten;
                out(ev("unwritten").add("cons", cons).add("doms", doms).add("obj", obj).add("why", why).add("known", objective_known));
                return;
            }
            ++written;
            document(*text, true);
            out(ev("posted").add("names", names).add("doms", doms).add("labels", labels).add("cons", cons).add("obj", obj));
            read(*text, true, rng);

            auto changed = *text;
            std::size_t at = 0;
            auto tree = parse(changed, at);
            for (int i = rng.in(1, 3); i > 0; --i) {
                auto t = tree;
                string s;
                if (rng.chance(1, 8))
                    s = alter_text(rng, show(t));
                else {
                    for (int q = rng.chance(3, 4) ? 1 : 2; q > 0; --q)
                        Alterer(rng, t).once();
                    s = show(t);
                }
                document(s, false);
                read(s, false, rng);
            }
        }
    };
}

auto main(int argc, char ** argv) -> int
{
    Args args(argc, argv);
    Shards out(args.out, "scp", args.shards);
    auto here = std::filesystem::absolute(std::filesystem::path(argv[0])).parent_path().string();
    auto dir = std::filesystem::absolute(args.out).string();
    Runner r{args, out, Progress{args.out}, dir + "/scp_scratch", here + "/scpbin"};
    auto kinds = all_kinds();
    long rounds = args.n > 0 ? args.n : args.thorough ? 120 : 8;
    for (long round = 0; round < rounds; ++round)
        for (std::size_t at = 0; at < kinds.size(); ++at) {
            if (! args.mode.empty() && kinds[at] != args.mode)
                continue;
            Rng rng(args.seed * 7000003 + round * 1013 + at);
            vector<string> ks{kinds[at]};
            if (rng.chance(1, 3))
                ks.push_back(rng.pick(kinds));
            r.round(rng, ks);
            out.next();
        }
    r.usage();
    std::cerr << r.written << " written, " << r.unwritten << " not\n";
    for (auto & x : std::filesystem::directory_iterator(dir))
        if (x.path().filename().string().starts_with("scp_scratch"))
            std::filesystem::remove(x.path());
    return 0;
}
