#ifndef VERIF_DRIVERS_COMMON_HH
#define VERIF_DRIVERS_COMMON_HH

// What every driver shares: arguments, a seeded generator, and JSON lines.

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <map>
#include <string>
#include <vector>

namespace verif
{
    // What the environment asks for, besides the defaults: each is read at most
    // once by the code, so one run of a driver is under one of these throughout.
    inline auto stem_prefix() -> std::string &
    {
        static std::string prefix;
        return prefix;
    }

    inline auto apply_setting(const std::string & which) -> void
    {
        static const std::map<std::string, std::vector<std::pair<const char *, const char *>>> settings{
            {"low", {{"GCS_LINEAR_INCREMENTAL_THRESHOLD", "0"}, {"GCS_TABULATION_THRESHOLD", "0"}, {"GCS_LINEAR_SLACK_WATCH_THRESHOLD", "0"}, {"GCS_LINEAR_SLACK_WATCH_COVER_PERCENT", "100"}}},
            {"high", {{"GCS_LINEAR_INCREMENTAL_THRESHOLD", "1000000"}, {"GCS_TABULATION_THRESHOLD", "1000000"}, {"GCS_LEARNED_NOGOODS_SCAN", "1"}, {"GCS_DIFFERENCE_AUDIT", "1"}}},
            {"audit", {{"GCS_LINEAR_INCREMENTAL_THRESHOLD", "2"}, {"GCS_TABULATION_THRESHOLD", "20"}, {"GCS_LINEAR_SLACK_WATCH_THRESHOLD", "2"}, {"GCS_LINEAR_SLACK_WATCH_COVER_PERCENT", "70"}, {"GCS_CHECK_IDEMPOTENT_CLAIMS", "1"}, {"GCS_DIFFERENCE_AUDIT", "1"}}}};
        for (auto & [k, v] : settings.at(which))
            ::setenv(k, v, 1);
        stem_prefix() = which + "_";
    }

    struct Args
    {
        unsigned long long seed = 1;
        bool thorough = false;
        std::string out = ".";
        int shards = 1;
        std::string input;
        std::string mode;
        long n = -1;

        Args(int argc, char ** argv)
        {
            for (int i = 1; i + 1 < argc; i += 2) {
                std::string k = argv[i], v = argv[i + 1];
                if (k == "--seed")
                    seed = std::stoull(v);
                else if (k == "--tier")
                    thorough = (v == "thorough");
                else if (k == "--out")
                    out = v;
                else if (k == "--shards")
                    shards = std::stoi(v);
                else if (k == "--input")
                    input = v;
                else if (k == "--mode")
                    mode = v;
                else if (k == "--n")
                    n = std::stol(v);
                else if (k == "--setting")
                    apply_setting(v);
            }
        }
    };

    // A fixed generator, so that a seed means the same thing everywhere.
    struct Rng
    {
        std::uint64_t s;
        explicit Rng(std::uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull)
        {
        }
        auto next() -> std::uint64_t
        {
            std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        // inclusive
        auto in(long long lo, long long hi) -> long long
        {
            return lo + static_cast<long long>(next() % (static_cast<std::uint64_t>(hi - lo) + 1));
        }
        auto chance(int num, int den) -> bool
        {
            return in(1, den) <= num;
        }
        template <typename C_>
        auto pick(const C_ & c) -> decltype(auto)
        {
            return c[static_cast<std::size_t>(in(0, static_cast<long long>(c.size()) - 1))];
        }
        template <typename C_>
        auto shuffle(C_ & c) -> void
        {
            for (std::size_t i = c.size(); i > 1; --i)
                std::swap(c[i - 1], c[static_cast<std::size_t>(in(0, static_cast<long long>(i) - 1))]);
        }
    };

    inline auto quote(const std::string & s) -> std::string
    {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                r += '\\';
                r += static_cast<char>(c);
            }
            else if (c < 32 || c > 126) {
                char buf[8];
                std::snprintf(buf, sizeof buf, "\\u%04x", c);
                r += buf;
            }
            else
                r += static_cast<char>(c);
        }
        return r + "\"";
    }

    // A JSON value under construction.
    struct J
    {
        std::string s;
        J(const char * v) : s(quote(v))
        {
        }
        J(const std::string & v) : s(quote(v))
        {
        }
        J(bool v) : s(v ? "true" : "false")
        {
        }
        J(int v) : s(std::to_string(v))
        {
        }
        J(long v) : s(std::to_string(v))
        {
        }
        J(long long v) : s(std::to_string(v))
        {
        }
        J(unsigned v) : s(std::to_string(v))
        {
        }
        J(unsigned long v) : s(std::to_string(v))
        {
        }
        J(unsigned long long v) : s(std::to_string(v))
        {
        }
        struct Raw
        {
            std::string s;
        };
        J(Raw r) : s(std::move(r.s))
        {
        }
        template <typename T_>
        J(const std::vector<T_> & v)
        {
            s = "[";
            bool first = true;
            for (const auto & x : v) {
                if (! first)
                    s += ",";
                first = false;
                s += J(x).s;
            }
            s += "]";
        }
    };

    inline auto arr(std::initializer_list<J> l) -> J
    {
        return J{std::vector<J>(l)};
    }

    struct Obj
    {
        std::string s = "{";
        auto add(const std::string & k, const J & v) -> Obj &
        {
            if (s.size() > 1)
                s += ",";
            s += quote(k) + ":" + v.s;
            return *this;
        }
        operator J() const
        {
            return J{J::Raw{s + "}"}};
        }
        auto str() const -> std::string
        {
            return s + "}";
        }
    };

    inline auto ev(const std::string & name) -> Obj
    {
        Obj o;
        o.add("ev", name);
        return o;
    }

    inline auto codes(const std::string & s) -> J
    {
        std::vector<int> v;
        for (unsigned char c : s)
            v.push_back(c);
        return J{v};
    }

    // A file of JSON lines, flushed line by line so that a crash leaves what
    // came before it.
    struct Lines
    {
        std::ofstream f;
        long count = 0;
        explicit Lines(const std::string & path) : f(path)
        {
        }
        auto operator()(const Obj & o) -> void
        {
            f << o.str() << "\n";
            ++count;
        }
    };

    // A trace split over several files by session, so that they can be
    // validated in parallel.
    struct Shards
    {
        std::vector<std::ofstream> f;
        std::size_t at = 0;
        Shards(const std::string & dir, const std::string & stem, int n)
        {
            for (int i = 0; i < n; ++i)
                f.emplace_back(dir + "/" + stem_prefix() + stem + "_" + std::to_string(i) + ".ndjson");
        }
        auto next() -> void
        {
            f[at].flush();
            at = (at + 1) % f.size();
        }
        auto operator()(const Obj & o) -> void
        {
            f[at] << o.str() << "\n";
        }
        auto raw(const std::string & line) -> void
        {
            f[at] << line << "\n";
        }
    };

    // What the driver is doing right now, for the report when it never returns.
    struct Progress
    {
        std::string path;
        explicit Progress(const std::string & dir) : path(dir + "/progress.txt")
        {
        }
        auto operator()(const std::string & what) const -> void
        {
            std::ofstream f(path);
            f << what << "\n";
        }
    };

    // An arbitrary 64-bit value as [sign, digits in base 10000, least first].
    inline auto big(__int128 v) -> J
    {
        std::vector<J> r;
        bool neg = v < 0;
        unsigned __int128 u = neg ? -static_cast<unsigned __int128>(v) : static_cast<unsigned __int128>(v);
        std::vector<int> limbs;
        while (u) {
            limbs.push_back(static_cast<int>(u % 10000));
            u /= 10000;
        }
        r.push_back(J{limbs.empty() ? 0 : neg ? -1 : 1});
        r.push_back(J{limbs});
        return J{r};
    }
}

#endif
