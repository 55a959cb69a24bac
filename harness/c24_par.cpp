// C24: the parallel tools, sequential, on real TBB and on the seeded stand-in.
#include "mon.hpp"
#include <list>
#include <limbo/tools/parallel.hpp>
namespace par = limbo::tools::par;
#if defined(SHIM)
static const char* build_name = "shim";
#elif defined(USE_TBB)
static const char* build_name = "tbb";
#else
static const char* build_name = "sequential";
#endif
static std::mutex tm_;
static std::set<std::thread::id> seen_threads;
static void here()
{
    std::lock_guard<std::mutex> l(tm_);
    seen_threads.insert(std::this_thread::get_id());
}
static void spin(uint64_t h)
{
    if (h % 97 == 0)
        std::this_thread::yield();
    for (volatile int i = 0; i < (int)(h % 50); i++) {
    }
}
struct Elem {
    double v;
    int id;
};
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([&](long, mon::Rng& r) {
#ifdef SHIM
        tbb::shim::ctl().threads = r.integer(2, 8);
        tbb::shim::ctl().seed = r.u64();
#endif
        int n = r.pick(std::vector<int>{0, 1, 2, 3, 5, 8, 17, 64, 200, 1000, 3000});
        if (r.coin(0.4))
            n = r.integer(0, 300);
        uint64_t salt = r.u64();
        std::string w = mon::str("[", build_name, " n=", n, "]");
        seen_threads.clear();
        // ---- loop
        {
            size_t b = r.coin() ? 0 : r.integer(1, 1000);
            size_t e = b + n;
            std::vector<std::atomic<int>> cnt(n + 2);
            std::atomic<long> outside{0};
            par::loop(b, e, [&](size_t i) {
                here();
                spin(mon::mix(salt ^ i));
                if (i < b || i >= e)
                    outside++;
                else
                    cnt[i - b]++;
            });
            long bad = 0;
            for (int i = 0; i < n; i++)
                bad += cnt[i] != 1;
            mon::check(!bad && !outside, "loop", mon::str("loop(", b, ",", e, "): ", bad, " indices not run exactly once, ", (long)outside, " outside ", w));
            if (r.coin(0.2)) {
                std::atomic<long> k{0};
                size_t hi = r.integer(0, 5);
                par::loop(hi + r.integer(0, 3), hi, [&](size_t) { k++; });
                mon::check(k == 0, "loop-empty", mon::str("an empty loop ran ", (long)k, " times ", w));
            }
            mon::evaluation(n + 1);
            mon::event("loop indices", n);
            // nested
            if (n <= 64) {
                int m = r.integer(0, 20);
                std::vector<std::atomic<int>> c2(n * m + 1);
                par::loop(0, n, [&](size_t i) { par::loop(0, m, [&](size_t j) { c2[i * m + j]++; }); });
                long bad2 = 0;
                for (int i = 0; i < n * m; i++)
                    bad2 += c2[i] != 1;
                mon::check(!bad2, "loop-nested", mon::str("nested loop: ", bad2, " of ", n * m, " pairs not run exactly once ", w));
                mon::event("nested loops");
            }
        }
        // ---- for_each
        {
            std::vector<Elem> v(n);
            for (int i = 0; i < n; i++)
                v[i] = Elem{0, i};
            std::vector<std::atomic<int>> cnt(n + 1);
            size_t a = n ? r.integer(0, n) : 0, b = n ? r.integer((int)a, n) : 0;
            if (r.coin()) {
                a = 0;
                b = n;
            }
            par::for_each(v.begin() + a, v.begin() + b, [&](Elem& x) {
                spin(mon::mix(salt ^ x.id));
                x.v += 1;
                cnt[x.id]++;
            });
            long bad = 0;
            for (int i = 0; i < n; i++)
                bad += cnt[i] != (i >= (int)a && i < (int)b) || v[i].v != cnt[i] || v[i].id != i;
            mon::check(!bad, "for_each", mon::str("for_each over [", a, ",", b, "): ", bad, " elements not visited exactly once, or not in place ", w));
            std::list<int> l;
            for (int i = 0; i < std::min(n, 100); i++)
                l.push_back(i);
            std::vector<std::atomic<int>> c2(101);
            par::for_each(l.begin(), l.end(), [&](int& x) { c2[x]++; });
            bad = 0;
            for (size_t i = 0; i < l.size(); i++)
                bad += c2[i] != 1;
            mon::check(!bad, "for_each-list", mon::str("for_each over a list: ", bad, " elements not visited exactly once ", w));
            mon::evaluation(2);
            mon::event("for_each elements", n + l.size());
        }
        // ---- replicate
        {
            std::atomic<long> k{0};
            par::replicate(n, [&]() {
                spin(mon::mix(salt + k));
                k++;
            });
            mon::check(k == n, "replicate", mon::str("replicate ran ", (long)k, " times ", w));
            mon::evaluation();
            mon::event("replications", n);
        }
        // ---- max
        {
            std::vector<double> val(n);
            int style = r.integer(0, 4);
            for (int i = 0; i < n; i++)
                val[i] = style == 0 ? r.gauss() : style == 1 ? r.integer(-2, 2) : style == 2 ? -5. : style == 3 ? -1e300 * r.unit() : (double)(i % 7);
            double init = r.coin(0.3) ? -std::numeric_limits<double>::infinity() : r.coin(0.3) ? 1e9 : r.range(-3, 3);
            bool minimize = r.coin(0.3);
            std::vector<std::atomic<int>> cnt(n + 1);
            auto f = [&](int i) {
                spin(mon::mix(salt ^ (i * 31)));
                cnt[i]++;
                return std::make_pair(val[i], i);
            };
            typedef std::pair<double, int> T;
            auto comp = [&](const T& a, const T& b) { return minimize ? a.first < b.first : a.first > b.first; };
            T m = par::max(T(init, -1), n, f, comp);
            long bad = 0;
            for (int i = 0; i < n; i++)
                bad += cnt[i] != 1;
            mon::check(!bad, "max-evaluations", mon::str("max: ", bad, " of ", n, " elements not evaluated exactly once ", w));
            double best = init;
            for (int i = 0; i < n; i++)
                best = minimize ? std::min(best, val[i]) : std::max(best, val[i]);
            bool ok = m.first == best && (m.second == -1 ? best == init : m.second >= 0 && m.second < n && val[m.second] == m.first);
            mon::check(ok, "max", mon::str("max returned (", m.first, ",", m.second, ") but the ", minimize ? "smallest" : "largest", " value is ", best, ", initial ", init, " ", w));
            mon::event(best == init ? "max: initial value kept" : "max: element better than the initial value");
            mon::evaluation();
        }
        // ---- sort
        {
            std::vector<Elem> v(n);
            int style = r.integer(0, 3);
            for (int i = 0; i < n; i++)
                v[i] = Elem{style == 0 ? r.gauss() : style == 1 ? (double)r.integer(0, 4) : style == 2 ? -(double)i : i, i};
            std::vector<Elem> o = v;
            size_t a = r.coin() || !n ? 0 : r.integer(0, n - 1), b = r.coin() || !n ? n : r.integer((int)a, n);
            bool rev = r.coin();
            auto comp = [rev](const Elem& x, const Elem& y) { return rev ? x.v > y.v : x.v < y.v; };
            par::sort(v.begin() + a, v.begin() + b, comp);
            bool ok = true;
            std::vector<int> seen(n, 0);
            for (int i = 0; i < n; i++) {
                ok = ok && v[i].id >= 0 && v[i].id < n && !seen[v[i].id]++ && v[i].v == o[v[i].id].v;
                if (i < (int)a || i >= (int)b)
                    ok = ok && v[i].id == i;
                if (i > (int)a && i < (int)b)
                    ok = ok && !comp(v[i], v[i - 1]);
            }
            mon::check(ok, "sort", mon::str("sort of [", a, ",", b, ") is not a sorted permutation in place ", w));
            mon::evaluation();
            mon::event("sorted elements", b - a);
        }
        // ---- concurrent container of the build
        {
#ifdef __GXX_EXPERIMENTAL_CXX0X__
            typename par::vector<int>::type c;
#else
            par::vector<int> c;
#endif
            std::mutex mm;
            par::loop(0, n, [&](size_t i) {
#ifndef USE_TBB
                std::lock_guard<std::mutex> l(mm);
#endif
                c.push_back((int)i);
            });
            auto v = par::convert_vector(c);
            std::sort(v.begin(), v.end());
            bool ok = v.size() == (size_t)n;
            for (int i = 0; ok && i < n; i++)
                ok = v[i] == i;
            mon::check(ok, "vector", mon::str("the concurrent vector holds ", v.size(), " elements ", w));
            mon::evaluation();
        }
        mon::Hash h;
        h.add(salt).add(n);
        mon::distinct(h.h);
        mon::event(mon::str("cases, ", build_name));
        if (seen_threads.size() > 1)
            mon::event(mon::str("cases run by several threads, ", build_name));
    });
    mon::sample(build_name);
#ifdef SHIM
    mon::event("shim: threads spawned", tbb::shim::ctl().spawned);
    mon::event("shim: parallel calls", tbb::shim::ctl().calls);
#endif
    return mon::finish();
}
