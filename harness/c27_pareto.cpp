// C27: Pareto sets and the statistic built on them against brute force.
#include "mon.hpp"
#include <Eigen/Core>
#include <boost/filesystem.hpp>
#include <limbo/tools/parallel.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
using Eigen::VectorXd;
typedef std::vector<VectorXd> Vs;
namespace fs = boost::filesystem;
static int dom(const VectorXd& a, const VectorXd& b)
{
    bool g = false, l = false;
    for (long i = 0; i < a.size(); i++) {
        g = g || a(i) > b(i);
        l = l || a(i) < b(i);
    }
    return g && !l ? 1 : l && !g ? -1 : 0;
}
static Vs points(mon::Rng& r, int n, int k, std::string& style)
{
    int s = r.integer(0, 7);
    static const char* nm[] = {"random", "coarse grid", "duplicates", "chain", "anti-chain", "one equal objective", "extreme values", "nearly equal"};
    style = nm[s];
    Vs v;
    for (int i = 0; i < n; i++) {
        VectorXd y(k);
        for (int j = 0; j < k; j++)
            switch (s) {
            case 0: y(j) = r.gauss(); break;
            case 1: y(j) = r.integer(0, 3); break;
            case 2: y(j) = r.unit(); break;
            case 3: y(j) = (i * 7919) % n + 0.5 * j; break;
            case 4: y(j) = j == 0 ? i : j == 1 ? -i : r.integer(0, 2); break;
            case 5: y(j) = j == 0 ? 1 : r.integer(0, 5); break;
            case 6: y(j) = r.coin(0.2) ? (r.coin() ? 1 : -1) * std::numeric_limits<double>::infinity() : r.coin() ? r.range(-1e308, 1e308) : r.coin() ? -0. : 0.; break;
            default: y(j) = 1 + r.integer(-2, 2) * 2.220446049250313e-16;
            }
        if (s == 2 && i && r.coin())
            y = v[r.integer(0, i - 1)];
        v.push_back(y);
    }
    return v;
}
static std::vector<int> brute(const Vs& v)
{
    std::vector<int> out;
    for (size_t i = 0; i < v.size(); i++) {
        bool d = false;
        for (size_t j = 0; j < v.size() && !d; j++)
            d = dom(v[j], v[i]) == 1;
        if (!d)
            out.push_back(i);
    }
    return out;
}
template <int K>
struct At;
typedef std::tuple<VectorXd, int, std::string> E0;
typedef std::tuple<int, VectorXd, VectorXd> E1;
typedef std::tuple<std::string, int, VectorXd> E2;
static std::string tag(int i) { return "payload" + std::to_string(i); }
template <int K, int ID, typename V>
static void compare(const V& p, const Vs& y, const std::vector<int>& want, const std::string& w, mon::Rng&)
{
    std::vector<int> ids;
    bool intact = true;
    for (auto& e : p) {
        int id = std::get<ID>(e);
        ids.push_back(id);
        intact = intact && id >= 0 && id < (int)y.size() && std::get<K>(e) == y[id];
    }
    std::sort(ids.begin(), ids.end());
    mon::evaluation();
    mon::event("Pareto sets");
    mon::event("points", y.size());
    mon::check(intact, "pareto-payload", "an element of the Pareto set does not carry its own data " + w);
    if (ids != want) {
        std::vector<int> miss, extra;
        std::set_difference(want.begin(), want.end(), ids.begin(), ids.end(), std::back_inserter(miss));
        std::set_difference(ids.begin(), ids.end(), want.begin(), want.end(), std::back_inserter(extra));
        // a duplicate of a kept point may be represented by it
        bool ok = extra.empty();
        for (int i : miss) {
            bool rep = false;
            for (int j : ids)
                rep = rep || y[j] == y[i];
            ok = ok && rep;
        }
        mon::check(ok, "pareto-set", mon::str(ids.size(), " elements instead of ", want.size(), "; missing ", miss.empty() ? std::string("none") : mon::vec(y[miss[0]]), ", not optimal ", extra.empty() ? std::string("none") : mon::vec(y[extra[0] < (int)y.size() ? extra[0] : 0]), " ", w));
    }
}
struct FakeBO {
    Vs X, Y;
    bool on = true;
    int it = 0;
    std::string dir;
    bool stats_enabled() const { return on; }
    const Vs& samples() const { return X; }
    const Vs& observations() const { return Y; }
    int current_iteration() const { return it; }
    int total_iterations() const { return it; }
    std::string res_dir() const { return dir; }
};
struct Params {
};
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    if (mon::S().scratch.empty())
        mon::S().scratch = "/tmp";
    mon::run_cases([&](long c, mon::Rng& r) {
        int k = r.integer(2, 6), n = r.coin(0.2) ? r.integer(1, 4) : r.integer(1, 120);
        std::string style;
        Vs y = points(r, n, k, style);
        std::vector<int> want = brute(y);
        std::string w = mon::str("[", n, " points, ", k, " objectives, ", style, "]");
        switch (c % 4) {
        case 0: {
            std::vector<E0> v;
            for (int i = 0; i < n; i++)
                v.push_back(E0(y[i], i, tag(i)));
            auto p = pareto::pareto_set<0>(v);
            for (auto& e : p)
                mon::check(std::get<2>(e) == tag(std::get<1>(e)), "pareto-payload", "payloads were mixed " + w);
            compare<0, 1>(p, y, want, w, r);
            break;
        }
        case 1: {
            std::vector<E1> v;
            for (int i = 0; i < n; i++)
                v.push_back(E1(i, y[i], -y[i]));
            compare<1, 0>(pareto::pareto_set<1>(v), y, want, w, r);
            break;
        }
        case 2: {
            std::vector<E2> v;
            for (int i = 0; i < n; i++)
                v.push_back(E2(tag(i), i, y[i]));
            compare<2, 1>(pareto::pareto_set<2>(v), y, want, w, r);
            break;
        }
        default: {
            FakeBO bo;
            bo.dir = mon::S().scratch + "/pf" + std::to_string(c);
            bo.on = !r.coin(0.1);
            bo.it = r.integer(0, 30);
            int d = r.integer(1, 4);
            for (int i = 0; i < n; i++) {
                VectorXd x(d);
                for (int j = 0; j < d; j++)
                    x(j) = (i + 1) * 0.001 + j;
                bo.X.push_back(x);
                // representable with the six digits of the file
                for (int j = 0; j < k; j++)
                    if (std::fabs(y[i](j)) > 100 || style == "nearly equal")
                        y[i](j) = r.integer(0, 4);
                    else
                        y[i](j) = std::round(y[i](j) * 100) / 100;
            }
            bo.Y = y;
            want = brute(y);
            fs::create_directories(bo.dir);
            limbo::experimental::stat::ParetoFront<Params> st;
            st(bo, [](const VectorXd& v) { return v(0); });
            std::string f = bo.dir + "/pareto_front_" + std::to_string(bo.it) + ".dat";
            if (!bo.on)
                mon::check(fs::is_empty(bo.dir), "pareto-stat-disabled", "the statistic wrote although disabled");
            else {
                std::ifstream in(f.c_str());
                std::string l;
                std::vector<int> ids;
                bool ok = in.good();
                while (std::getline(in, l)) {
                    std::istringstream s(l);
                    std::vector<double> row;
                    double z;
                    while (s >> z)
                        row.push_back(z);
                    int id = row.empty() ? -1 : (int)std::lround(row[0] * 1000) - 1;
                    ok = ok && (int)row.size() == d + k && id >= 0 && id < n;
                    for (int j = 0; ok && j < d; j++)
                        ok = std::fabs(row[j] - bo.X[id](j)) < 1e-4;
                    for (int j = 0; ok && j < k; j++)
                        ok = std::fabs(row[d + j] - y[id](j)) < 1e-3;
                    ids.push_back(id);
                }
                std::sort(ids.begin(), ids.end());
                bool sub = true;
                for (int i : want) {
                    bool rep = false;
                    for (int j : ids)
                        rep = rep || (j >= 0 && j < n && y[j] == y[i]);
                    sub = sub && rep;
                }
                bool opt = std::includes(want.begin(), want.end(), ids.begin(), ids.end());
                mon::check(ok && sub && opt, "pareto-stat", mon::str("the Pareto front file has ", ids.size(), " lines for ", want.size(), " optimal points, or a line does not match its sample ", w));
                mon::event("Pareto front files");
            }
            mon::evaluation();
            fs::remove_all(bo.dir);
        }
        }
        // the relation itself
        for (int q = 0; q < 10; q++) {
            const VectorXd &a = y[r.integer(0, n - 1)], &b = y[r.integer(0, n - 1)];
            int f = pareto::impl::dominate_flag(a, b);
            mon::check(f == dom(a, b) && pareto::impl::dominate(a, b) == (f == 1), "dominance", mon::str("dominate_flag(", mon::vec(a), ",", mon::vec(b), ") is ", f));
        }
        mon::event(std::string("style: ") + style);
        mon::Hash h;
        for (auto& v : y)
            h.addv(v);
        mon::distinct(h.h);
        mon::sample(w);
    });
    return mon::finish();
}
