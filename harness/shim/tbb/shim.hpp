// A scheduler stand-in for the part of TBB that limbo uses: every parallel call
// runs on fresh std::threads (which ThreadSanitizer understands, unlike the
// system's uninstrumented libtbb) with a seeded split of the work, seeded order
// and seeded delays.  serial = true runs the work in order on the caller.
#ifndef VERIF_TBB_SHIM
#define VERIF_TBB_SHIM
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <iterator>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
namespace tbb {
    namespace shim {
        struct Ctl {
            bool serial = false;
            int threads = 4;
            std::atomic<uint64_t> seed{1}, calls{0}, chunks{0}, delays{0}, spawned{0};
            std::atomic<uint64_t> schedule{0}; // hash of the splits taken
        };
        inline Ctl& ctl()
        {
            static Ctl c;
            return c;
        }
        inline uint64_t mix(uint64_t z)
        {
            z += 0x9e3779b97f4a7c15ull;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        struct R {
            uint64_t s;
            uint64_t next() { return mix(s++); }
            uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        };
        inline int& depth()
        {
            static thread_local int d = 0;
            return d;
        }
        inline void pause(R& r)
        {
            switch (r.below(6)) {
            case 0: std::this_thread::yield(); break;
            case 1:
                ctl().delays++;
                std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
                break;
            case 2:
                for (volatile int i = 0; i < (int)(1 + r.s % 200); i++) {
                }
                break;
            default: break;
            }
        }
        // runs task(0..n-1), each once
        inline void run(size_t n, const std::function<void(size_t)>& task)
        {
            Ctl& c = ctl();
            if (n == 0)
                return;
            c.calls++;
            R r{mix(c.seed.fetch_add(1))};
            if (c.serial) {
                for (size_t i = 0; i < n; i++)
                    task(i);
                return;
            }
            std::vector<size_t> order(n);
            for (size_t i = 0; i < n; i++)
                order[i] = i;
            size_t nt = std::min<size_t>(n, 1 + r.below(c.threads));
            if (nt == 1 && n > 1)
                nt = 2;
            if (depth() >= 2)
                nt = 1;
            // contiguous runs like a real splitter, or fully shuffled
            if (r.below(2))
                for (size_t i = n; i > 1; i--)
                    std::swap(order[i - 1], order[r.below(i)]);
            c.schedule = mix(c.schedule ^ mix(n * 64 + nt) ^ r.s);
            c.chunks += nt;
            std::vector<std::vector<size_t>> part(nt);
            for (size_t i = 0; i < n; i++)
                part[nt == 1 ? 0 : (r.below(3) ? i * nt / n : r.below(nt))].push_back(order[i]);
            if (nt == 1) {
                depth()++;
                for (size_t i : part[0])
                    task(i);
                depth()--;
                return;
            }
            std::vector<std::thread> th;
            std::exception_ptr err;
            std::mutex em;
            uint64_t s0 = r.next();
            int d = depth();
            std::atomic<size_t> ready{0};
            auto work = [&](size_t t) {
                int was = depth();
                depth() = d + 1;
                R q{mix(s0 + t)};
                // start together, so that short tasks overlap
                ready++;
                for (int spin = 0; ready.load(std::memory_order_relaxed) < nt && spin < 20000; spin++)
                    if (spin > 200)
                        std::this_thread::yield();
                pause(q);
                try {
                    for (size_t i : part[t]) {
                        task(i);
                        if (n < 200 || q.below(16) == 0)
                            pause(q);
                    }
                }
                catch (...) {
                    std::lock_guard<std::mutex> l(em);
                    if (!err)
                        err = std::current_exception();
                }
                depth() = was;
            };
            for (size_t t = 1; t < nt; t++) {
                c.spawned++;
                th.emplace_back(work, t);
            }
            work(0);
            for (auto& x : th)
                x.join();
            if (err)
                std::rethrow_exception(err);
        }
    }
    template <typename I, typename F>
    void parallel_for(I first, I last, I step, const F& f)
    {
        if (!(first < last))
            return;
        size_t n = ((size_t)(last - first) + step - 1) / step;
        shim::run(n, [&](size_t i) { f((I)(first + (I)i * step)); });
    }
    template <typename I, typename F>
    void parallel_for(I first, I last, const F& f) { parallel_for(first, last, (I)1, f); }
    template <typename It, typename F>
    void parallel_for_each(It b, It e, const F& f)
    {
        std::vector<It> its;
        for (It i = b; i != e; ++i)
            its.push_back(i);
        shim::run(its.size(), [&](size_t i) { f(*its[i]); });
    }
    template <typename T>
    struct blocked_range {
        T b, e;
        blocked_range(T x, T y) : b(x), e(y) {}
        T begin() const { return b; }
        T end() const { return e; }
        size_t size() const { return e - b; }
        bool empty() const { return !(b < e); }
        typedef T const_iterator;
    };
    template <typename Range, typename V, typename Body, typename Join>
    V parallel_reduce(const Range& r, const V& identity, const Body& body, const Join& join)
    {
        if (r.empty())
            return body(r, identity);
        if (shim::ctl().serial)
            return body(r, identity);
        shim::R q{shim::mix(shim::ctl().seed.fetch_add(1))};
        size_t n = r.size(), np = 1 + q.below(std::min<size_t>(n, 2 * shim::ctl().threads));
        std::vector<size_t> cut{0, n};
        for (size_t i = 1; i < np; i++)
            cut.push_back(q.below(n + 1));
        std::sort(cut.begin(), cut.end());
        cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
        size_t m = cut.size() - 1;
        // some pieces are accumulated onto the previous one, as TBB does
        std::vector<char> glue(m, 0);
        for (size_t i = 1; i < m; i++)
            glue[i] = q.below(3) == 0;
        std::vector<std::pair<size_t, size_t>> grp;
        for (size_t i = 0; i < m; i++)
            if (glue[i])
                grp.back().second = i + 1;
            else
                grp.push_back({i, i + 1});
        std::vector<std::unique_ptr<V>> res(grp.size());
        shim::run(grp.size(), [&](size_t g) {
            V v = identity;
            for (size_t i = grp[g].first; i < grp[g].second; i++)
                v = body(Range(r.begin() + cut[i], r.begin() + cut[i + 1]), v);
            res[g].reset(new V(v));
        });
        std::vector<V> vs;
        for (auto& p : res)
            vs.push_back(*p);
        while (vs.size() > 1) {
            size_t i = q.below(vs.size() - 1);
            V j = join(vs[i], vs[i + 1]);
            vs[i] = j;
            vs.erase(vs.begin() + i + 1);
        }
        return vs[0];
    }
    template <typename It, typename C>
    void parallel_sort(It b, It e, const C& comp)
    {
        size_t n = e - b;
        if (shim::ctl().serial || n < 4) {
            std::sort(b, e, comp);
            return;
        }
        size_t k = 2 + shim::mix(shim::ctl().seed.fetch_add(1)) % 3;
        std::vector<It> cut;
        for (size_t i = 0; i <= k; i++)
            cut.push_back(b + n * i / k);
        shim::run(k, [&](size_t i) { std::sort(cut[i], cut[i + 1], comp); });
        for (size_t i = 1; i < k; i++)
            std::inplace_merge(b, cut[i], cut[i + 1], comp);
    }
    template <typename T>
    class concurrent_vector {
        std::deque<T> _d;
        mutable std::mutex _m;

    public:
        typedef T value_type;
        typedef typename std::deque<T>::iterator iterator;
        typedef typename std::deque<T>::const_iterator const_iterator;
        typedef T& reference;
        typedef size_t size_type;
        concurrent_vector() {}
        explicit concurrent_vector(size_t n, const T& v = T()) : _d(n, v) {}
        concurrent_vector(const concurrent_vector& o) : _d(o._d) {}
        concurrent_vector& operator=(const concurrent_vector& o)
        {
            _d = o._d;
            return *this;
        }
        iterator push_back(const T& t)
        {
            std::lock_guard<std::mutex> l(_m);
            _d.push_back(t);
            return _d.end() - 1;
        }
        size_t size() const
        {
            std::lock_guard<std::mutex> l(_m);
            return _d.size();
        }
        bool empty() const { return size() == 0; }
        void clear() { _d.clear(); }
        T& operator[](size_t i) { return _d[i]; }
        const T& operator[](size_t i) const { return _d[i]; }
        T& back() { return _d.back(); }
        T& front() { return _d.front(); }
        iterator begin() { return _d.begin(); }
        iterator end() { return _d.end(); }
        const_iterator begin() const { return _d.begin(); }
        const_iterator end() const { return _d.end(); }
    };
    struct task_scheduler_init {
        task_scheduler_init(int = -1) {}
    };
}
#endif
