// C26: random tools: range, shape, reproducibility, distribution.
#include "mon.hpp"
#include <Eigen/Core>
#include <limbo/tools/random_generator.hpp>
using Eigen::MatrixXd;
using Eigen::VectorXd;
using namespace limbo::tools;
static double Phi(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.)); }
// Kolmogorov-Smirnov against a continuous distribution given as values of its
// cdf; 4/sqrt(n) is exceeded with probability below 3e-14
static bool ks(std::vector<double> u, double& stat)
{
    std::sort(u.begin(), u.end());
    double d = 0, n = u.size();
    for (size_t i = 0; i < u.size(); i++)
        d = std::max(d, std::max((i + 1) / n - u[i], u[i] - i / n));
    stat = d * std::sqrt(n);
    return stat < 4;
}
// a count of a binomial(n, p) is within 8 standard deviations (+ slack for small counts)
static bool count_ok(double k, double n, double p) { return std::fabs(k - n * p) < 8 * std::sqrt(n * p * (1 - p)) + 12; }
static void ksc(const std::vector<double>& u, const std::string& what)
{
    double s;
    mon::evaluation();
    mon::event("distribution tests");
    mon::event("values in distribution tests", u.size());
    bool ok = ks(u, s);
    mon::check(ok, "distribution", mon::str(what, ": Kolmogorov-Smirnov statistic ", s, " of ", u.size(), " values"));
}
static void independent(const std::vector<double>& a, const std::vector<double>& b, const std::string& what)
{
    // quadrants of values of two cdfs
    double n = a.size(), k = 0;
    for (size_t i = 0; i < a.size(); i++)
        k += (a[i] < 0.5) == (b[i] < 0.5);
    mon::evaluation();
    mon::check(count_ok(k, n, 0.5), "independence", mon::str(what, ": ", k, " of ", n, " pairs are on the same side of the median"));
}
static void vectors(mon::Rng& r)
{
    int d = r.integer(1, 12), n = 3000;
    bool bounded = r.coin();
    bool wrap = r.coin(); // through random_vector
    std::vector<std::vector<double>> u(d);
    VectorXd prev;
    std::string w = mon::str(wrap ? "random_vector" : "random_vector_*", bounded ? " bounded" : " unbounded", " of size ", d);
    std::vector<double> lag;
    for (int i = 0; i < n; i++) {
        VectorXd v = wrap ? (bounded && r.coin() ? random_vector(d) : random_vector(d, bounded)) : bounded ? random_vector_bounded(d) : random_vector_unbounded(d);
        if (!mon::check(v.size() == d, "vector-size", mon::str(w, " has ", v.size(), " elements")))
            return;
        bool ok = v.allFinite() && (!bounded || (v.minCoeff() >= 0 && v.maxCoeff() <= 1));
        if (!mon::check(ok, "vector-range", mon::str(w, " is ", mon::vec(v))))
            return;
        if (i && !mon::check(v != prev, "vector-repeated", w + ": two successive vectors are equal"))
            return;
        prev = v;
        for (int j = 0; j < d; j++)
            u[j].push_back(bounded ? v(j) : Phi(v(j) / 10));
    }
    for (int j = 0; j < d; j++)
        ksc(u[j], mon::str(w, ", component ", j));
    for (int j = 1; j < d; j++)
        independent(u[j - 1], u[j], w);
    std::vector<double> a(u[0].begin(), u[0].end() - 1), b(u[0].begin() + 1, u[0].end());
    independent(a, b, w + " (successive vectors)");
    mon::event("random vectors", n);
    mon::distinct(mon::Hash().addv(prev).h);
}
static void lhs(mon::Rng& r)
{
    int d = r.integer(1, 6), n = r.coin(0.3) ? r.integer(1, 4) : r.integer(1, 40);
    int reps = 1 + 1500 / n;
    std::vector<double> inside;
    std::vector<std::vector<double>> cell(n, std::vector<double>(n, 0));
    double same = 0, rows = 0;
    std::string w = mon::str("random_lhs(", d, ",", n, ")");
    std::vector<double> m0(n, 0); // stratum of the first row, dimension 0
    MatrixXd prev;
    for (int k = 0; k < reps; k++) {
        MatrixXd h = random_lhs(d, n);
        if (!mon::check(h.rows() == n && h.cols() == d, "lhs-shape", mon::str(w, " is ", h.rows(), "x", h.cols())))
            return;
        for (int j = 0; j < d; j++) {
            std::vector<int> seen(n, 0);
            for (int i = 0; i < n; i++) {
                double v = h(i, j);
                int s = (int)std::floor(v * n + 1e-9 * 0);
                // rounding at the border of a stratum
                s = std::max(0, std::min(n - 1, s));
                if (!mon::check(v >= 0 && v <= 1, "lhs-range", mon::str(w, " has the value ", v)))
                    return;
                if (seen[s] && s + 1 < n && !seen[s + 1] && v * n > s + 1 - 1e-9)
                    s++;
                else if (seen[s] && s > 0 && !seen[s - 1] && v * n < s + 1e-9)
                    s--;
                seen[s]++;
                inside.push_back(std::min(1., std::max(0., v * n - s)));
                if (d > 1 && j == 0)
                    cell[s][std::min(n - 1, (int)(h(i, 1) * n))]++;
                if (j == 0 && i == 0)
                    m0[s]++;
            }
            bool ok = *std::min_element(seen.begin(), seen.end()) == 1;
            if (!mon::check(ok, "lhs-strata", mon::str(w, ": dimension ", j, " does not have exactly one sample in each of the ", n, " intervals")))
                return;
        }
        if (k)
            mon::check(h != prev, "lhs-repeated", w + " returned the same design twice");
        prev = h;
        mon::evaluation();
        mon::event("Latin hypercubes");
    }
    ksc(inside, w + ", position inside the interval");
    for (int a = 0; d > 1 && n > 1 && a < n; a++)
        for (int b = 0; b < n; b++)
            mon::check(count_ok(cell[a][b], reps, 1. / n), "lhs-permutation", mon::str(w, ": intervals ", a, " and ", b, " of two dimensions meet ", cell[a][b], " times in ", reps, " designs"));
    for (int a = 0; n > 1 && a < n; a++)
        mon::check(count_ok(m0[a], reps, 1. / n), "lhs-order", mon::str(w, ": the first sample is in interval ", a, " in ", m0[a], " of ", reps, " designs"));
    mon::distinct(mon::Hash().add(n).add(d).addd(prev(0, 0)).h);
}
template <typename G, typename A>
static void seeds(mon::Rng& r, A a, A b, const char* name)
{
    // fresh generators with the same seed
    int s = r.coin(0.2) ? 0 : r.coin(0.2) ? 2147483647 : (int)(r.u64() % 100000);
    int n = r.integer(1, 200);
    G g1(a, b, s), g2(a, b, s), g3(a, b), g4(a, b), g5(a, b, s == 2147483647 ? 5 : s + 1);
    bool same = true, diff3 = false, diff5 = false;
    for (int i = 0; i < n; i++) {
        auto x = g1.rand(), y = g2.rand(), z = g3.rand(), t = g4.rand(), q = g5.rand();
        same = same && x == y;
        diff3 = diff3 || z != t;
        diff5 = diff5 || x != q;
    }
    mon::check(same, "seed-same", mon::str(name, ": two generators with seed ", s, " differ"));
    // restarting
    for (int i = r.integer(0, 9); i > 0; i--)
        g3.rand();
    g3.seed(s);
    g3.reset();
    G ref(a, b, s);
    bool again = true;
    for (int i = 0; i < n; i++)
        again = again && g3.rand() == ref.rand();
    mon::check(again, "seed-restart", mon::str(name, ": seed(", s, ") and reset() do not restart the sequence"));
    if (n >= 60 && (double)b - (double)a > 1) {
        mon::check(diff3, "seed-fresh", mon::str(name, ": two generators without seed give the same ", n, " values"));
        mon::check(diff5, "seed-different", mon::str(name, ": generators with seeds ", s, " and the next one give the same ", n, " values"));
        mon::event("fresh and different seeds compared");
    }
    // vectors take the sequence in order
    G v1(a, b, s), v2(a, b, s);
    int d = r.integer(1, 10);
    VectorXd v = random_vec(d, v1);
    bool seq = v.size() == d;
    for (int i = 0; seq && i < d; i++)
        seq = v(i) == (double)v2.rand();
    mon::check(seq, "random_vec", mon::str(name, ": random_vec does not hold the generator's sequence"));
    mon::evaluation(3);
    mon::event(std::string("seeded sequences of ") + name);
    mon::distinct(mon::Hash().add(s).addd((double)a).addd((double)b).add(n).h);
}
static void ranges(mon::Rng& r)
{
    // integers: both ends, uniform
    {
        int a = r.coin(0.2) ? -2147483647 - 1 : r.integer(-20, 20), len = r.integer(0, 12), b = a + len;
        rgen_int_t g(a, b, r.coin() ? -1 : (int)(r.u64() % 1000));
        if (r.coin(0.3)) {
            g = rgen_int_t(0, 1);
            g.param(rdist_int_t::param_type(a, b));
            mon::event("changed parameters");
        }
        int n = 2000;
        std::vector<double> c(len + 1, 0);
        for (int i = 0; i < n; i++) {
            int x = g.rand();
            if (!mon::check(x >= a && x <= b, "int-range", mon::str("integer ", x, " drawn from [", a, ",", b, "]")))
                return;
            c[x - a]++;
        }
        for (int k = 0; k <= len; k++)
            mon::check(len == 0 ? c[k] == n : count_ok(c[k], n, 1. / (len + 1)) && c[k] > 0, "int-uniform", mon::str("integer ", a + k, " drawn ", c[k], " times of ", n, " from [", a, ",", b, "]"));
        mon::evaluation();
        mon::event("integer ranges");
    }
    {
        double a = r.range(-10, 10), len = r.logrange(1e-3, 1e3);
        rgen_double_t g(a, a + len, r.coin() ? -1 : (int)(r.u64() % 1000));
        if (r.coin(0.3)) {
            g = rgen_double_t(0., 1.);
            g.param(rdist_double_t::param_type(a, a + len));
        }
        std::vector<double> u;
        for (int i = 0; i < 2000; i++) {
            double x = g.rand();
            if (!mon::check(x >= a && x <= a + len, "real-range", mon::str(x, " drawn from [", a, ",", a + len, "]")))
                return;
            u.push_back((x - a) / len);
        }
        ksc(u, "rgen_double_t");
    }
    {
        double m = r.range(-10, 10), s = r.logrange(1e-3, 1e3);
        rgen_gauss_t g(m, s, r.coin() ? -1 : (int)(r.u64() % 1000));
        std::vector<double> u;
        for (int i = 0; i < 2000; i++)
            u.push_back(Phi((g.rand() - m) / s));
        ksc(u, "rgen_gauss_t");
    }
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([&](long c, mon::Rng& r) {
        switch (c % 4) {
        case 0: vectors(r); break;
        case 1: lhs(r); break;
        case 2:
            for (int k = 0; k < 20; k++) {
                seeds<rgen_double_t>(r, r.range(-5, 0), r.range(2, 5), "rgen_double_t");
                seeds<rgen_gauss_t>(r, r.range(-5, 0), r.range(2, 5), "rgen_gauss_t");
                seeds<rgen_int_t>(r, r.integer(-5, 0), r.integer(5, 50), "rgen_int_t");
            }
            break;
        default: ranges(r);
        }
    });
    mon::sample("random vectors, Latin hypercubes, seeded generators");
    return mon::finish();
}
