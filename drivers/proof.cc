// Solves random small models with proof logging and records the files written,
// one step per line: the pseudo-Boolean model, then each line of the proof,
// then what the solver reported. Parsing is purely syntactic: what a line
// means, and whether it follows, is decided by the specification.

#include "brancher.hh"
#include "model.hh"
#include "presolving.hh"

#include <filesystem>

using namespace verif;
using namespace gcs;

namespace
{
    struct BadSyntax
    {
        string what;
    };

    auto tag(const string & name, const J & value) -> J
    {
        return J{vector<J>{J{name}, value}};
    }

    auto is_number(const string & t) -> bool
    {
        if (t.empty())
            return false;
        std::size_t i = (t[0] == '-' || t[0] == '+') ? 1 : 0;
        if (i == t.size())
            return false;
        for (; i < t.size(); ++i)
            if (t[i] < '0' || t[i] > '9')
                return false;
        return true;
    }

    auto number(const string & t) -> long long
    {
        if (! is_number(t))
            throw BadSyntax{"number expected, got '" + t + "'"};
        auto n = std::stoll(t);
        if (n > 1000000000 || n < -1000000000)
            throw BadSyntax{"number too big for this check: " + t};
        return n;
    }

    // Whitespace separates tokens; ';' and ':' are tokens of their own, except
    // that neither splits a name.
    auto tokens(const string & s) -> vector<string>
    {
        vector<string> r;
        std::istringstream in(s);
        string t;
        while (in >> t) {
            vector<string> tail;
            while (t.size() > 1 && t.back() == ';') {
                tail.push_back(";");
                t.pop_back();
            }
            // "e ... >= 3:-1;" and ": x -> 0"
            auto colon = t.find(':');
            if (t.size() > 1 && colon != string::npos && t.find('[') == string::npos) {
                if (colon > 0)
                    r.push_back(t.substr(0, colon));
                r.push_back(":");
                if (colon + 1 < t.size())
                    r.push_back(t.substr(colon + 1));
            }
            else
                r.push_back(t);
            for (auto & x : tail)
                r.push_back(x);
        }
        return r;
    }

    struct File
    {
        std::map<string, int> index;
        vector<string> names;

        auto lit(string t) -> long long
        {
            bool neg = false;
            if (! t.empty() && t[0] == '~') {
                neg = true;
                t = t.substr(1);
            }
            if (t.empty() || is_number(t) || t == ";" || t == ":" || t == ">=")
                throw BadSyntax{"literal expected, got '" + t + "'"};
            auto [it, fresh] = index.try_emplace(t, static_cast<int>(names.size()) + 1);
            if (fresh)
                names.push_back(t);
            return neg ? -it->second : it->second;
        }

        // "c l c l ... >= d", stopping after d
        auto inequality(const vector<string> & ts, std::size_t & at, Obj & o) -> void
        {
            vector<vector<long long>> terms;
            while (at < ts.size() && ts[at] != ">=") {
                if (at + 1 >= ts.size())
                    throw BadSyntax{"unfinished inequality"};
                auto c = number(ts[at]);
                terms.push_back({c, lit(ts[at + 1])});
                at += 2;
            }
            if (at + 1 >= ts.size())
                throw BadSyntax{"inequality without a right hand side"};
            o.add("t", terms).add("d", number(ts[at + 1]));
            at += 2;
        }

        auto reference(const string & t) -> J
        {
            if (! t.empty() && t[0] == '@')
                return tag("label", J(t.substr(1)));
            return tag("id", J(number(t)));
        }
    };

    auto expect(const vector<string> & ts, std::size_t & at, const string & what) -> void
    {
        if (at >= ts.size() || ts[at] != what)
            throw BadSyntax{"expected '" + what + "'"};
        ++at;
    }

    auto at_end(const vector<string> & ts, std::size_t at) -> void
    {
        if (at != ts.size())
            throw BadSyntax{"trailing text"};
    }

    auto lines_of(const string & path) -> vector<string>
    {
        std::ifstream in(path);
        vector<string> r;
        string l;
        while (std::getline(in, l))
            r.push_back(l);
        return r;
    }

    // The model file, as the fields of one event.
    auto read_opb(File & f, const string & path, Obj & o) -> void
    {
        vector<J> cons;
        vector<vector<long long>> objective;
        vector<long long> preserved;
        bool has_objective = false, has_preserved = false;
        for (auto & line : lines_of(path)) {
            auto ts = tokens(line);
            if (ts.empty() || ts[0][0] == '*')
                continue;
            std::size_t at = 0;
            if (ts[0] == "min:" || (ts[0] == "min" && ts.size() > 1 && ts[1] == ":")) {
                has_objective = true;
                at = ts[0] == "min:" ? 1 : 2;
                while (at < ts.size() && ts[at] != ";") {
                    auto c = number(ts[at]);
                    if (at + 1 >= ts.size())
                        throw BadSyntax{"unfinished objective"};
                    objective.push_back({c, f.lit(ts[at + 1])});
                    at += 2;
                }
                expect(ts, at, ";");
                at_end(ts, at);
                continue;
            }
            if (ts[0] == "preserved:" || (ts[0] == "preserved" && ts.size() > 1 && ts[1] == ":")) {
                has_preserved = true;
                at = ts[0] == "preserved:" ? 1 : 2;
                while (at < ts.size() && ts[at] != ";")
                    preserved.push_back(f.lit(ts[at++]));
                expect(ts, at, ";");
                at_end(ts, at);
                continue;
            }
            Obj c;
            string label;
            if (ts[0][0] == '@') {
                label = ts[0].substr(1);
                ++at;
            }
            c.add("lab", label);
            f.inequality(ts, at, c);
            expect(ts, at, ";");
            at_end(ts, at);
            cons.push_back(J{c});
        }
        o.add("cons", cons).add("objective", objective).add("hasobj", has_objective).add("preserved", preserved).add("haspres", has_preserved);
    }

    // A bracketed term, as nested arrays of words.
    auto bracketed(const string & t, std::size_t & at, int depth = 0) -> J
    {
        while (at < t.size() && t[at] == ' ')
            ++at;
        if (at >= t.size() || depth > 20)
            throw BadSyntax{"unfinished annotation"};
        if (t[at] != '(') {
            auto from = at;
            while (at < t.size() && t[at] != ' ' && t[at] != '(' && t[at] != ')')
                ++at;
            return J{t.substr(from, at - from)};
        }
        ++at;
        vector<J> r;
        for (;;) {
            while (at < t.size() && t[at] == ' ')
                ++at;
            if (at < t.size() && t[at] == ')') {
                ++at;
                return J{r};
            }
            r.push_back(bracketed(t, at, depth + 1));
        }
    }

    // "a <inequality> [: <labels> : <name> : <fields>] ;"
    auto read_assertion(File & f, const string & line, const string & label, const std::function<void(const Obj &)> & out) -> void
    {
        auto end = line.rfind(';');
        auto ge = line.find(">=");
        if (end == string::npos || ge == string::npos || line.find_first_not_of(' ', end + 1) != string::npos)
            throw BadSyntax{"assertion"};
        auto colon = line.find(':', ge);
        auto o = ev("assert");
        o.add("lab", label);
        auto ts = tokens(line.substr(0, std::min(end, colon)));
        std::size_t at = label.empty() ? 1 : 2;
        f.inequality(ts, at, o);
        at_end(ts, at);
        vector<string> parts;
        if (colon != string::npos) {
            auto rest = line.substr(colon + 1, end - colon - 1);
            auto second = rest.find(':');
            auto third = second == string::npos ? string::npos : rest.find(':', second + 1);
            if (third == string::npos)
                throw BadSyntax{"annotation without its three parts"};
            parts = {rest.substr(0, second), rest.substr(second + 1, third - second - 1), rest.substr(third + 1)};
        }
        vector<string> from;
        vector<J> fields;
        string name;
        if (! parts.empty()) {
            std::istringstream in(parts[0]);
            string t;
            while (in >> t) {
                if (t[0] != '@')
                    throw BadSyntax{"a label was expected"};
                from.push_back(t.substr(1));
            }
            name = parts[1];
            if (parts[2].find_first_not_of(' ') != string::npos) {
                std::size_t i = 0;
                fields.push_back(bracketed(parts[2], i));
                if (parts[2].find_first_not_of(' ', i) != string::npos)
                    throw BadSyntax{"text after an annotation"};
            }
        }
        o.add("annotated", ! parts.empty()).add("from", from).add("hint", name).add("fields", fields);
        out(o);
    }

    // The variables map: what each name in the files stands for.
    auto read_map(const string & path) -> vector<J>
    {
        auto text_of = [](const string & l, const string & key) -> string {
            auto k = "\"" + key + "\":";
            auto i = l.find(k);
            if (i == string::npos)
                return "";
            i += k.size();
            if (l[i] == '"')
                return l.substr(i + 1, l.find('"', i + 1) - i - 1);
            return l.substr(i, l.find_first_of(",}", i) - i);
        };
        vector<J> r;
        for (auto & l : lines_of(path)) {
            if (l.empty() || l[0] != '"')
                continue;
            auto close = l.find('"', 1);
            auto number_of = [&](const string & key) { auto t = text_of(l, key); return t.empty() ? 0 : number(t); };
            r.push_back(J{Obj{}
                              .add("key", l.substr(1, close - 1))
                              .add("type", text_of(l, "type"))
                              .add("cpt", text_of(l, "cpvartype"))
                              .add("cpid", number_of("cpvarid"))
                              .add("name", text_of(l, "name"))
                              .add("op", text_of(l, "operator"))
                              .add("k", text_of(l, "type") == "condition" ? number_of("value") : number_of("power"))
                              .add("hi", number_of("upper_value"))});
        }
        return r;
    }

    // One proof line, as an event; comments give nothing.
    auto read_step(File & f, const string & line, const std::function<void(const Obj &)> & out) -> void
    {
        auto ts = tokens(line);
        if (ts.empty() || ts[0][0] == '%')
            return;
        std::size_t at = 0;
        string label;
        if (ts[0][0] == '@') {
            label = ts[0].substr(1);
            ++at;
            if (at == ts.size())
                throw BadSyntax{"label without a step"};
        }
        auto rule = ts[at++];
        if (rule == "pseudo-Boolean") {
            out(ev("header"));
            return;
        }
        if (rule == "a") {
            read_assertion(f, line, label, out);
            return;
        }
        if (rule == "rup" || rule == "ia") {
            auto o = ev(rule == "ia" ? "implied" : "rup");
            o.add("lab", label);
            f.inequality(ts, at, o);
            vector<J> hints;
            bool hinted = false;
            if (at < ts.size() && ts[at] == ":") {
                ++at;
                hinted = true;
                while (at < ts.size() && ts[at] != ";")
                    hints.push_back(f.reference(ts[at++]));
            }
            expect(ts, at, ";");
            at_end(ts, at);
            o.add("hinted", hinted).add("hints", hints);
            out(o);
        }
        else if (rule == "pol") {
            auto o = ev("pol");
            vector<J> ops;
            while (at < ts.size() && ts[at] != ";") {
                auto & t = ts[at];
                auto next = at + 1 < ts.size() ? ts[at + 1] : string{};
                if (t == "+" || t == "s")
                    ops.push_back(tag(t, J(0)));
                else if (is_number(t) && t[0] != '-' && (next == "*" || next == "d")) {
                    ops.push_back(tag(next, J(number(t))));
                    ++at;
                }
                else if (is_number(t) || t[0] == '@')
                    ops.push_back(f.reference(t));
                else if (next == "w") {
                    ops.push_back(tag(next, J(f.lit(t))));
                    ++at;
                }
                else
                    ops.push_back(tag("lit", J(f.lit(t))));
                ++at;
            }
            expect(ts, at, ";");
            at_end(ts, at);
            o.add("lab", label).add("ops", ops);
            out(o);
        }
        else if (rule == "red") {
            auto o = ev("red");
            o.add("lab", label);
            f.inequality(ts, at, o);
            vector<vector<long long>> to_constant, to_literal;
            expect(ts, at, ":");
            bool sub = false;
            while (at < ts.size() && ts[at] != ";" && ts[at] != ":") {
                auto from = f.lit(ts[at++]);
                expect(ts, at, "->");
                if (at == ts.size())
                    throw BadSyntax{"unfinished witness"};
                if (ts[at] == "0" || ts[at] == "1")
                    to_constant.push_back({from, number(ts[at])});
                else
                    to_literal.push_back({from, f.lit(ts[at])});
                ++at;
            }
            if (at < ts.size() && ts[at] == ":") {
                ++at;
                expect(ts, at, "subproof");
                sub = true;
            }
            else
                expect(ts, at, ";");
            at_end(ts, at);
            o.add("wc", to_constant).add("wl", to_literal).add("sub", sub);
            out(o);
        }
        else if (rule == "proofgoal") {
            auto o = ev("goal");
            if (ts.size() != 2)
                throw BadSyntax{"proofgoal"};
            if (ts[1][0] == '#')
                o.add("goal", tag("new", J(number(ts[1].substr(1)))));
            else
                o.add("goal", f.reference(ts[1]));
            out(o);
        }
        else if (rule == "qed") {
            expect(ts, at, ";");
            at_end(ts, at);
            out(ev("qed"));
        }
        else if (rule == "soli" || rule == "solx") {
            auto o = ev(rule);
            vector<long long> ls;
            while (at < ts.size() && ts[at] != ";")
                ls.push_back(f.lit(ts[at++]));
            expect(ts, at, ";");
            at_end(ts, at);
            o.add("lits", ls);
            out(o);
        }
        else if (rule == "e") {
            auto o = ev("equal");
            f.inequality(ts, at, o);
            expect(ts, at, ":");
            if (at == ts.size())
                throw BadSyntax{"e"};
            o.add("ref", f.reference(ts[at++]));
            expect(ts, at, ";");
            at_end(ts, at);
            out(o);
        }
        else if (rule == "del") {
            if (at == ts.size())
                throw BadSyntax{"del"};
            auto kind = ts[at++];
            vector<J> refs;
            while (at < ts.size() && ts[at] != ";")
                refs.push_back(f.reference(ts[at++]));
            expect(ts, at, ";");
            at_end(ts, at);
            if (kind == "id") {
                auto o = ev("delete");
                o.add("refs", refs);
                out(o);
            }
            else if (kind == "range" && refs.size() == 2) {
                auto o = ev("deleterange");
                o.add("from", refs[0]).add("to", refs[1]);
                out(o);
            }
            else
                throw BadSyntax{"del"};
        }
        else if (rule == "output") {
            if (ts.size() != 3 || ts[1] != "NONE" || ts[2] != ";")
                throw BadSyntax{"output"};
            out(ev("output"));
        }
        else if (rule == "conclusion") {
            auto o = ev("conclusion");
            if (at == ts.size())
                throw BadSyntax{"conclusion"};
            auto kind = ts[at++];
            vector<J> args;
            vector<J> ref;
            while (at < ts.size() && ts[at] != ";" && ts[at] != ":")
                args.push_back(ts[at] == "INF" ? tag("inf", J(0)) : tag("n", J(number(ts[at])))), ++at;
            if (at < ts.size() && ts[at] == ":") {
                ++at;
                while (at < ts.size() && ts[at] != ";")
                    ref.push_back(f.reference(ts[at++]));
            }
            expect(ts, at, ";");
            at_end(ts, at);
            o.add("kind", kind).add("args", args).add("ref", ref);
            out(o);
        }
        else if (rule == "end") {
            if (ts.size() != 4 || ts[1] != "pseudo-Boolean" || ts[2] != "proof" || ts[3] != ";")
                throw BadSyntax{"end"};
            out(ev("end"));
        }
        else
            throw BadSyntax{"unknown rule '" + rule + "'"};
    }

    // Models whose proofs are known findings, by kind and seed.
    const vector<std::pair<string, std::uint64_t>> directed = {{"cumulative", 5824381}, {"cumulative", 7175432}, {"disjunctive", 5032318}};

    // What an unexpected error says, without the numbers.
    auto site_of(const string & thrown) -> string
    {
        if (! thrown.starts_with("other: "))
            return "";
        auto s = thrown.substr(7);
        auto digit = s.find_first_of("-0123456789");
        return digit == string::npos ? s : s.substr(0, digit);
    }

    auto why(const std::exception_ptr & e) -> string
    {
        try {
            std::rethrow_exception(e);
        }
        catch (const InvalidProblemDefinitionException &) {
            return "invalid";
        }
        catch (const UnimplementedException &) {
            return "unimplemented";
        }
        catch (const std::exception & x) {
            return string{"other: "} + x.what();
        }
    }
}

auto main(int argc, char ** argv) -> int
{
    Args args(argc, argv);
    Progress progress(args.out);
    bool only_model = args.mode == "opb"; // the model and its map, and none of the steps
    if (only_model)
        args.mode = "";
    bool presolve = args.mode == "presolve"; // models with presolvers
    if (presolve)
        args.mode = "";
    bool settings = args.mode == "settings"; // levels from the environment
    if (settings)
        args.mode = "";
    Shards out(args.out, only_model ? "opb" : presolve ? "pres" : settings ? "level" : "proof", args.shards);
    auto kinds = all_kinds();
    if (only_model)
        args.seed += 500;
    long rounds = args.n > 0 ? args.n : args.thorough ? 40 : 2;
    auto scratch = args.out + "/files";
    std::filesystem::create_directories(scratch);
    if (presolve)
        kinds.resize(10);
    for (long round = only_model || presolve || settings ? 0 : -1; round < rounds; ++round)
        for (std::size_t at = 0; at < (round < 0 ? directed.size() : kinds.size()); ++at) {
            std::uint64_t seed = round < 0 ? directed[at].second : args.seed * 1000003 + round * 1009 + at;
            Rng rng(seed);
            if (round >= 0 && ! args.mode.empty() && kinds[at] != args.mode)
                continue;
            vector<string> ks{round < 0 ? directed[at].first : kinds[at]};
            Rng extra(seed * 31 + 7);
            if (round >= 0 && extra.chance(1, 4))
                ks.push_back(round >= 0 && extra.chance(1, 2) ? kinds[at] : extra.pick(kinds)); // twice the same: names have to differ
            int makespan = 0;
            auto m = presolve && at >= 5 ? project_model(rng, 60, makespan) : presolve && at >= 1 ? difference_model(rng, 40) : make_model(rng, ks, ks.size() > 1 ? 20 : 30);
            if (m.doms.empty())
                continue;
            Presolving presolving;
            if (presolve)
                presolving = random_presolvers(extra, m, makespan, at >= 5 ? makespan ? "sjcccca" : "sjca" : "addddsjc");
            progress(m.describe());
            Obj o = ev("begin");
            m.json(o);
            vector<vector<long long>> sols;
            string thrown = "no";
            bool completed = false, stopped = false;
            int objective = rng.chance(1, 3) ? static_cast<int>(rng.in(0, m.doms.size() - 1)) : -1;
            bool minimise = rng.chance(1, 2);
            long stop_after = rng.chance(1, 5) ? rng.in(1, 3) : 0;
            if (only_model)
                stop_after = 1;
            auto base = scratch + "/p";
            ProofOptions options{base};
            Term goal{objective + 1, 1, 0};
            bool branch = false;
            long scale = 0;
            string surroundings; // the default level, from the environment
            if (round >= 0) {
                if (extra.chance(1, 6))
                    options.set_verbose_names(false);
                if (extra.chance(1, 6))
                    options.enable_full_encoding();
                if (extra.chance(1, 6))
                    options.set_compact_boolean_encoding();
                if (extra.chance(1, 3) && ! only_model)
                    options.set_assertion_level(static_cast<AssertionLevel>(extra.in(1, 4)));
                if (settings) {
                    if (extra.chance(1, 2))
                        options = ProofOptions{base};
                    if (extra.chance(1, 8))
                        options.set_assertion_level(AssertionLevel::Off);
                    static const vector<string> levels{"Off", "Definitions", "Links", "Inferences", "Backtracking", "0", "1", "2", "3", "4", "1", "2", "3", "4"};
                    static const vector<string> junk{"", "5", "-1", "on", "Link", "Linkss", " 2", "2 ", "00", "inference", "12", "Off,", "true"};
                    if (extra.chance(1, 8))
                        surroundings = junk[extra.in(0, junk.size() - 1)];
                    else {
                        surroundings = levels[extra.in(0, levels.size() - 1)];
                        auto fold = extra.in(0, 3);
                        for (auto & ch : surroundings)
                            if (fold == 1 || (fold == 2 && extra.chance(1, 2)))
                                ch = static_cast<char>(std::tolower(ch));
                            else if (fold == 3)
                                ch = static_cast<char>(std::toupper(ch));
                    }
                }
                if (extra.chance(1, 3)) {
                    goal.c = extra.chance(1, 2) ? -1 : 1;
                    goal.o = extra.in(-3, 3);
                }
                branch = extra.chance(1, 2);
                if ((objective >= 0 || stop_after == 1) && extra.chance(1, 3))
                    scale = extra.in(1, 3);
            }
            if (settings)
                ::setenv("GCS_ASSERTION_LEVEL", surroundings.c_str(), 1);
            o.add("asked", options.assertion_level_set_explicitly ? static_cast<int>(options.assertion_level) : -1).add("surroundings", codes(surroundings)).add("verbose", options.verbose_names).add("full", options.always_use_full_encoding)
                .add("compact", options.use_compact_boolean_encoding).add("scale", scale).add("goal", goal.json()).add("presolvers", presolving.json);
            vector<vector<string>> posted;
            try {
                Problem p;
                auto ids = m.create(p);
                for (auto range : m.ranges) // a list of values is itself a constraint
                    if (! range)
                        posted.push_back({"_" + std::to_string(posted.size() + 1), "domain"});
                for (auto & c : m.cons) {
                    Sink sink{[&](const Constraint & q) {
                        p.post(q);
                        posted.push_back({"_" + std::to_string(posted.size() + 1), c.kind});
                    }};
                    c.post(sink, ids);
                }
                for (auto & a : presolving.add)
                    a(p, ids);
                if (objective >= 0) {
                    if (minimise)
                        p.minimise(goal.id(ids));
                    else
                        p.maximise(goal.id(ids));
                }
                SolveCallbacks cb;
                cb.solution = [&](const CurrentState & s) {
                    vector<long long> a;
                    for (auto & v : ids)
                        a.push_back(s(v).raw_value);
                    sols.push_back(a);
                    if (stop_after && static_cast<long>(sols.size()) >= stop_after) {
                        stopped = true;
                        return false;
                    }
                    return true;
                };
                cb.completed = [&] { completed = true; };
                if (branch)
                    cb.branch = brancher(extra, p, ids);
                if (scale)
                    cb.restarts = RestartSchedule::luby(scale);
                solve_with(p, std::move(cb), options);
            }
            catch (...) {
                thrown = why(std::current_exception());
            }
            o.add("thrown", thrown.starts_with("other") ? "other" : thrown).add("site", site_of(thrown)).add("seed", std::to_string(seed)).add("objective", objective).add("minimise", minimise);
            if (auto keep = std::getenv("VERIF_KEEP"); keep && std::to_string(seed) == keep)
                for (auto e : {".opb", ".pbp", ".varmap"})
                    std::filesystem::copy_file(base + e, args.out + "/keep" + e, std::filesystem::copy_options::overwrite_existing);
            File f;
            vector<string> steps;
            string bad;
            vector<J> map;
            Obj opb = ev("model");
            if (thrown == "no") {
                try {
                    read_opb(f, base + ".opb", opb);
                    map = read_map(base + ".varmap");
                    if (! only_model)
                        for (auto & l : lines_of(base + ".pbp"))
                            read_step(f, l, [&](const Obj & e) { steps.push_back(e.str()); });
                }
                catch (const BadSyntax & b) {
                    bad = b.what;
                }
            }
            if (steps.size() > 1500)
                continue; // checking these takes out of proportion long
            o.add("bad", bad);
            if (only_model && thrown != "no")
                continue; // left to the check of proofs
            out(o);
            if (thrown == "no" && bad.empty()) {
                opb.add("names", f.names).add("map", map).add("posted", posted);
                out(opb);
                for (auto & e : steps)
                    out.raw(e);
            }
            if (only_model) {
                if (thrown == "no" && bad.empty())
                    out(ev("judge").add("map", map));
                out.next();
                continue;
            }
            Obj last = ev("outcome");
            last.add("sols", sols).add("completed", completed).add("stopped", stopped).add("objective", objective);
            out(last);
            out.next();
        }
    return 0;
}
