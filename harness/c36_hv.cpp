// C36: dominated hypervolume (Zitzler's code and the statistic on it) against slicing.
#include "mon.hpp"
#include <Eigen/Core>
#include <boost/filesystem.hpp>
#include <limbo/tools/macros.hpp>
#include <limbo/tools/parallel.hpp>
#include <limbo/experimental/stat/hyper_volume.hpp>
using Eigen::VectorXd;
namespace fs = boost::filesystem;
typedef long double ld;
typedef std::vector<std::vector<double>> Pts;
// volume between the origin and the points, by slices along the last axis
static ld slices(std::vector<const double*> p, int d)
{
    if (d == 1) {
        double m = 0;
        for (auto q : p)
            m = std::max(m, q[0]);
        return m;
    }
    std::sort(p.begin(), p.end(), [&](const double* a, const double* b) { return a[d - 1] > b[d - 1]; });
    ld s = 0;
    for (size_t i = 0; i < p.size(); i++) {
        double lo = i + 1 < p.size() ? p[i + 1][d - 1] : 0;
        if (p[i][d - 1] > lo)
            s += ((ld)p[i][d - 1] - lo) * slices(std::vector<const double*>(p.begin(), p.begin() + i + 1), d - 1);
    }
    return s;
}
static ld volume(const Pts& v, int d)
{
    std::vector<const double*> p;
    for (auto& q : v)
        p.push_back(q.data());
    return slices(p, d);
}
static bool dominates(const std::vector<double>& a, const std::vector<double>& b, int d)
{
    bool g = false;
    for (int k = 0; k < d; k++) {
        if (a[k] < b[k])
            return false;
        g = g || a[k] > b[k];
    }
    return g;
}
static Pts points(mon::Rng& r, int n, int d, double scale, std::string& style)
{
    int st = r.integer(0, 6);
    static const char* nm[] = {"random", "sphere", "integers", "few levels", "duplicates", "chain", "zero coordinates"};
    style = nm[st];
    Pts v;
    for (int i = 0; i < n; i++) {
        std::vector<double> q(d);
        double m = 0;
        for (int k = 0; k < d; k++) {
            double g = std::fabs(r.gauss()) + 1e-3;
            m += g * g;
            q[k] = st == 1 ? g : st == 2 ? r.integer(1, 20) : st == 3 ? r.integer(1, 3) : st == 5 ? (k == 0 ? n - i : i + 1) : r.unit() + 1e-3;
            if (st == 6 && r.coin(0.3))
                q[k] = 0;
        }
        for (int k = 0; k < d; k++)
            q[k] = scale * (st == 1 ? q[k] / std::sqrt(m) : q[k]);
        if (st == 4 && i && r.coin())
            q = v[r.integer(0, i - 1)];
        v.push_back(q);
    }
    return v;
}
struct FakeBO {
    std::vector<VectorXd> Y;
    bool on = true;
    int it = 0;
    std::string dir;
    bool stats_enabled() const { return on; }
    const std::vector<VectorXd>& observations() const { return Y; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
    std::string res_dir() const { return dir; }
};
static double g_ref[6];
struct Params {
    struct stat_hyper_volume {
        static double ref(size_t k) { return g_ref[k]; }
    };
};
struct ArrayParams {
    struct stat_hyper_volume {
        BO_PARAM_ARRAY(double, ref, 2.5, 0.25, 7, 1);
    };
};
template <typename P>
static void stat(mon::Rng& r, long c, double* ref, int maxd)
{
    int d = r.integer(2, maxd);
    double scale = r.coin() ? 1 : r.logrange(1e-2, 1e2);
    FakeBO bo;
    bo.dir = mon::S().scratch + "/hv" + std::to_string(c);
    bo.on = !r.coin(0.1);
    fs::create_directories(bo.dir);
    limbo::experimental::stat::HyperVolume<P> st;
    std::vector<std::pair<int, ld>> want;
    Pts shifted;
    std::string style;
    bool below = r.coin();
    if (r.coin(0.2))
        st(bo, [](const VectorXd& v) { return v(0); }); // nothing observed yet
    bo.it = r.integer(0, 3);
    for (int t = r.integer(1, 8); t > 0; t--) {
        for (auto& q : points(r, r.integer(1, 4), d, scale, style)) {
            VectorXd y(d);
            std::vector<double> s(d);
            bool under = below && r.coin(0.3);
            if (under)
                mon::event("observation below the reference");
            for (int k = 0; k < d; k++) {
                y(k) = q[k] - ref[k] - (under && r.coin() ? 2 * scale * r.unit() : 0);
                s[k] = y(k) + ref[k];
                s[k] = std::max(0., s[k]);
            }
            bo.Y.push_back(y);
            shifted.push_back(s);
        }
        std::vector<VectorXd> before = bo.Y;
        st(bo, [](const VectorXd& v) { return v(0); });
        mon::check(before == bo.Y, "hv-stat-input", "the statistic changed the observations");
        want.push_back({bo.it, volume(shifted, d)});
        bo.it += r.integer(1, 3);
    }
    std::string f = bo.dir + "/hypervolume.dat";
    if (!bo.on) {
        mon::check(fs::is_empty(bo.dir), "hv-stat-disabled", "the statistic wrote although disabled");
        mon::event("statistic disabled");
    }
    else {
        std::ifstream in(f.c_str());
        std::string l;
        size_t n = 0;
        double unit = 1;
        for (int k = 0; k < d; k++)
            unit *= scale + std::fabs(ref[k]);
        while (std::getline(in, l)) {
            if (l.empty() || l[0] == '#')
                continue;
            std::istringstream s(l);
            int it = -1;
            double hv = -1, extra;
            s >> it >> hv;
            mon::check(!s.fail() && !(s >> extra), "hv-stat-line", "line \"" + l + "\"");
            if (n < want.size()) {
                mon::check(it == want[n].first, "hv-stat-iteration", mon::str("line ", n, " carries iteration ", it, " instead of ", want[n].first));
                mon::check(std::fabs(hv - (double)want[n].second) <= 1e-5 * (double)want[n].second + 1e-11 * unit, "hv-stat-value", mon::str("the statistic wrote ", hv, " instead of ", (double)want[n].second, " [", d, " objectives, ", style, ", line ", n, "]"));
                mon::event("line of hypervolume.dat");
            }
            n++;
        }
        mon::check(n == want.size(), "hv-stat-lines", mon::str(n, " lines instead of ", want.size()));
    }
    mon::evaluation();
    fs::remove_all(bo.dir);
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    if (mon::S().scratch.empty())
        mon::S().scratch = "/tmp";
    mon::run_cases([&](long c, mon::Rng& r) {
        if (c % 4 == 3) {
            for (int k = 0; k < 6; k++)
                g_ref[k] = r.coin(0.3) ? 0 : r.range(-20, 20);
            double fixed[] = {2.5, 0.25, 7, 1};
            if (r.coin(0.7))
                stat<Params>(r, c, g_ref, 4);
            else
                stat<ArrayParams>(r, c, fixed, 4);
            return;
        }
        int d = r.integer(2, 6), n = r.integer(1, d == 2 ? 80 : d == 3 ? 40 : d == 4 ? 14 : 8);
        double scale = r.coin() ? 1 : r.logrange(1e-3, 1e3);
        std::string style;
        Pts v = points(r, n, d, scale, style), v0 = v;
        std::string w = mon::str("[", n, " points, ", d, " objectives, ", style, "]");
        std::vector<double*> f;
        for (auto& q : v)
            f.push_back(q.data());
        std::vector<double*> f0 = f;
        std::sort(f0.begin(), f0.end());
        // the first few objectives only, then all
        int part = r.integer(2, d);
        int m = FilterNondominatedSet(f.data(), n, part);
        std::vector<double*> got(f.begin(), f.begin() + std::min(std::max(m, 0), n)), want;
        for (auto& q : v) {
            bool dom = false;
            for (auto& o : v)
                dom = dom || dominates(o, q, part);
            if (!dom)
                want.push_back(q.data());
        }
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        mon::check(got == want, "hv-filter", mon::str(m, " points kept instead of ", want.size(), " ", w));
        std::vector<double*> all = f;
        std::sort(all.begin(), all.end());
        mon::check(all == f0, "hv-front", "the filter lost or repeated points " + w);
        mon::event("filtered fronts");
        ld vol = volume(v, d);
        double s = 1;
        for (int k = 0; k < d; k++) {
            double mx = 0;
            for (auto& q : v)
                mx = std::max(mx, q[k]);
            s *= mx;
        }
        // from the non-dominated points, from all of them, and again
        m = FilterNondominatedSet(f.data(), n, d);
        double h1 = CalculateHypervolume(f.data(), m, d);
        double h2 = CalculateHypervolume(f.data(), n, d);
        for (double h : {h1, h2})
            mon::check(std::fabs(h - (double)vol) <= 1e-11 * s, "hv-volume", mon::str("hypervolume ", h, " instead of ", (double)vol, " ", w));
        all = f;
        std::sort(all.begin(), all.end());
        mon::check(all == f0 && v == v0, "hv-front", "the front was damaged " + w);
        // adding a point never shrinks it; a dominated one leaves it as it is
        std::vector<double> q = v[r.integer(0, n - 1)];
        for (auto& e : q)
            e *= r.coin() ? 1 : r.unit();
        f.push_back(q.data());
        double h3 = CalculateHypervolume(f.data(), n + 1, d);
        mon::check(std::fabs(h3 - (double)vol) <= 1e-11 * s, "hv-dominated", mon::str("a dominated point changed the hypervolume from ", (double)vol, " to ", h3, " ", w));
        mon::event("hypervolumes", 3);
        if (m > 3)
            mon::event("front of several points");
        mon::event("style: " + style);
        mon::evaluation(3);
        mon::Hash h;
        for (auto& e : v)
            for (double x : e)
                h.addd(x);
        mon::distinct(h.h);
        mon::sample(w);
    });
    return mon::finish();
}
