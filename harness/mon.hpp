// Monitor runtime shared by every driver: seeded case loop, event counters,
// distinct-state sets, violation records, machine-readable output.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <algorithm>
#include <atomic>
#include <chrono>
#include <fstream>
#include <limits>
#include <memory>
#include <numeric>
#include <random>
#include <stdexcept>
#include <thread>
#include <tuple>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

namespace mon {
    inline uint64_t mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // the harness's own deterministic generator (never limbo's)
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
        uint64_t u64()
        {
            s += 0x9e3779b97f4a7c15ull;
            uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
        double range(double a, double b) { return a + (b - a) * unit(); }
        int integer(int a, int b) { return a + (int)(u64() % (uint64_t)(b - a + 1)); } // inclusive
        bool coin(double p = 0.5) { return unit() < p; }
        double gauss()
        {
            double u1 = 1.0 - unit(), u2 = unit();
            return std::sqrt(-2 * std::log(u1)) * std::cos(6.283185307179586 * u2);
        }
        double logrange(double a, double b) { return std::exp(range(std::log(a), std::log(b))); }
        template <typename T>
        const T& pick(const std::vector<T>& v) { return v[u64() % v.size()]; }
    };

    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++)
            h = (h ^ c[i]) * 1099511628211ull;
        return h;
    }
    inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
    struct Hash {
        uint64_t h = 1469598103934665603ull;
        Hash& add(uint64_t v)
        {
            h = mix(h ^ v);
            return *this;
        }
        Hash& addd(double d)
        {
            uint64_t u;
            std::memcpy(&u, &d, 8);
            return add(u);
        }
        template <typename V>
        Hash& addv(const V& v)
        {
            for (long i = 0; i < (long)v.size(); i++)
                addd(v(i));
            return *this;
        }
    };

    inline std::string jstr(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += (char)c;
            }
            else if (c < 32 || c > 126) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
            else
                o += (char)c;
        }
        return o + "\"";
    }

    struct State {
        uint64_t seed = 1;
        long cases = 100, only = -1, cur = -1;
        std::string mode, out, scratch;
        bool thorough = false;
        int casefd = -1;
        std::mutex m;
        std::map<std::string, uint64_t> events;
        std::set<uint64_t> distinct;
        std::vector<std::string> samples;
        std::vector<std::string> viol;
        std::set<std::string> viol_keys;
        std::map<std::string, std::string> extra;
        uint64_t evals = 0, nviol = 0;
    };
    inline State& S()
    {
        static State s;
        return s;
    }
    inline void event(const std::string& k, uint64_t n = 1)
    {
        std::lock_guard<std::mutex> l(S().m);
        S().events[k] += n;
    }
    inline void evaluation(uint64_t n = 1)
    {
        std::lock_guard<std::mutex> l(S().m);
        S().evals += n;
    }
    // one distinct, non-trivial thing observed (the runner unions these over processes)
    inline void distinct(uint64_t h)
    {
        std::lock_guard<std::mutex> l(S().m);
        if (S().distinct.size() < 400000)
            S().distinct.insert(h);
    }
    inline void sample(const std::string& s)
    {
        std::lock_guard<std::mutex> l(S().m);
        if (S().samples.size() < 4)
            S().samples.push_back(s);
    }
    inline void violation(const std::string& key, const std::string& msg)
    {
        std::lock_guard<std::mutex> l(S().m);
        S().nviol++;
        std::ostringstream o;
        o << "{\"key\":" << jstr(key) << ",\"msg\":" << jstr(msg.substr(0, 1500)) << ",\"case\":" << S().cur << "}";
        // a few of each kind are enough
        std::string kk = key;
        if (S().viol.size() < 60 || !S().viol_keys.count(kk)) {
            S().viol.push_back(o.str());
            S().viol_keys.insert(kk);
            std::fprintf(stderr, "MON-VIOLATION %s\n", o.str().c_str());
            std::fflush(stderr);
        }
    }
    inline bool check(bool ok, const std::string& key, const std::string& msg)
    {
        if (!ok)
            violation(key, msg);
        return ok;
    }
    template <typename... A>
    std::string str(const A&... a)
    {
        std::ostringstream o;
        o.precision(17);
        using e = int[];
        (void)e{0, ((void)(o << a), 0)...};
        return o.str();
    }
    inline void write_out()
    {
        State& s = S();
        if (s.out.empty())
            return;
        std::string tmp = s.out + ".tmp";
        FILE* f = std::fopen(tmp.c_str(), "w");
        if (!f)
            return;
        std::fprintf(f, "{\"seed\":%llu,\"mode\":%s,\"evaluations\":%llu,\"nviol\":%llu,\"events\":{", (unsigned long long)s.seed, jstr(s.mode).c_str(), (unsigned long long)s.evals, (unsigned long long)s.nviol);
        bool first = true;
        for (auto& e : s.events) {
            std::fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(e.first).c_str(), (unsigned long long)e.second);
            first = false;
        }
        std::fprintf(f, "},\"distinct\":[");
        first = true;
        for (auto h : s.distinct) {
            std::fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
            first = false;
        }
        std::fprintf(f, "],\"samples\":[");
        first = true;
        for (auto& x : s.samples) {
            std::fprintf(f, "%s%s", first ? "" : ",", jstr(x).c_str());
            first = false;
        }
        std::fprintf(f, "],\"violations\":[");
        first = true;
        for (auto& x : s.viol) {
            std::fprintf(f, "%s%s", first ? "" : ",", x.c_str());
            first = false;
        }
        std::fprintf(f, "],\"done\":true}\n");
        std::fclose(f);
        std::rename(tmp.c_str(), s.out.c_str());
    }
    inline void parse(int argc, char** argv)
    {
        State& s = S();
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--seed")
                s.seed = std::strtoull(v.c_str(), 0, 10);
            else if (k == "--cases")
                s.cases = std::atol(v.c_str());
            else if (k == "--only")
                s.only = std::atol(v.c_str());
            else if (k == "--mode")
                s.mode = v;
            else if (k == "--out")
                s.out = v;
            else if (k == "--scratch")
                s.scratch = v;
            else if (k == "--tier")
                s.thorough = (v == "thorough");
        }
        if (!s.out.empty())
            s.casefd = ::open((s.out + ".case").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    }
    // runs f(case, rng) for every case
    inline void run_cases(const std::function<void(long, Rng&)>& f)
    {
        State& s = S();
        uint64_t mh = hash_str(s.mode);
        for (long c = 0; c < s.cases; c++) {
            if (s.only >= 0 && c != s.only)
                continue;
            s.cur = c;
            if (s.casefd >= 0) {
                char b[32];
                int n = std::snprintf(b, sizeof b, "%-12ld\n", c);
                if (::pwrite(s.casefd, b, n, 0) < 0) {
                }
            }
            Rng r(mix(s.seed * 1000003ull + (uint64_t)c) ^ mh);
            f(c, r);
            if (s.nviol > 400)
                break;
        }
        s.cur = -1;
    }
    inline int finish()
    {
        write_out();
        return 0;
    }
    inline bool fin(double x) { return std::isfinite(x); }
    // |a-b| <= tol, false when either is NaN
    inline bool near(long double a, long double b, long double tol)
    {
        if (a == b)
            return true;
        return std::fabs((double)(a - b)) <= (double)tol;
    }
    inline bool rel(long double a, long double b, long double t, long double floor_ = 1.0L)
    {
        long double s = std::max(floor_, std::max(std::fabs(a), std::fabs(b)));
        return near(a, b, t * s);
    }
    template <typename V>
    std::string vec(const V& v)
    {
        std::ostringstream o;
        o.precision(17);
        o << "[";
        for (long i = 0; i < (long)v.size(); i++)
            o << (i ? "," : "") << v(i);
        o << "]";
        return o.str();
    }
} // namespace mon
#endif
