// C22: everything the statistics write, read back and compared with what a
// recording statistic saw of the same run at the same moments.
#include "gpkit.hpp"
#include <boost/filesystem.hpp>
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
#include <limbo/stat.hpp>
#include <limbo/stat/gp.hpp>
#include <limbo/stat/gp_acquisitions.hpp>
#include <limbo/stat/gp_kernel_hparams.hpp>
#include <limbo/stat/gp_likelihood.hpp>
#include <limbo/stat/gp_mean_hparams.hpp>
#include <limbo/stat/gp_prediction_differences.hpp>
#include <limbo/stop/max_iterations.hpp>
using namespace kit;
using namespace limbo;
namespace fs = boost::filesystem;
struct Run {
    int dim_in = 1, dim_out = 1, iters = 5, hp = -1, samples = 4, bins = 3;
    bool stats = true;
    double scale = 1, off = 0;
} R;
struct P : kit::Params {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return R.stats; }
        static bool bounded() { return true; }
    };
    struct bayes_opt_boptimizer {
        static int hp_period() { return R.hp; }
    };
    struct stop_maxiterations {
        static int iterations() { return R.iters; }
    };
    struct init_lhs {
        static int samples() { return R.samples; }
    };
    struct init_randomsampling : init_lhs {
    };
    struct acqui_ucb {
        static double alpha() { return 0.5; }
    };
    struct acqui_gpucb {
        static constexpr double delta() { return 0.1; }
    };
    struct acqui_ei {
        static double jitter() { return 0.; }
    };
    struct stat_gp {
        static int bins() { return R.bins; }
    };
};
struct Fun {
    static size_t dim_in() { return R.dim_in; }
    static size_t dim_out() { return R.dim_out; }
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y(R.dim_out);
        for (int o = 0; o < y.size(); o++)
            y(o) = R.off + R.scale * (std::sin(3 * x.sum() + o) + (x.array() - 0.3).matrix().squaredNorm() * (o - 0.5));
        return y;
    }
};
struct Afun {
    typedef double result_type;
    int k = 0;
    double operator()(const VectorXd& v) const
    {
        return k == 0 ? v(0) : k == 1 ? v.sum() - 0.3 * v(0) : k == 2 ? -v.cwiseAbs().maxCoeff() : v(v.size() - 1);
    }
};
typedef std::vector<double> Row;
// one call of the statistics
struct Snap {
    int total, current;
    Vs X, Y;
    std::vector<double> agg;
    Row acq, kp, mp, diff;
    double lik;
    std::vector<Row> grid;
};
static std::vector<Snap>& snaps()
{
    static std::vector<Snap> s;
    return s;
}
static Row cat(double a, const VectorXd& v)
{
    Row r{a};
    for (long i = 0; i < v.size(); i++)
        r.push_back(v(i));
    return r;
}
template <typename Pp>
struct Recorder : public limbo::stat::StatBase<Pp> {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        Snap s;
        s.total = bo.total_iterations();
        s.current = bo.current_iteration();
        s.X = bo.samples();
        s.Y = bo.observations();
        for (auto& y : s.Y)
            s.agg.push_back(afun(y));
        auto m = bo.model(); // copy
        typename BO::acquisition_function_t aq(m, s.current);
        if (!s.X.empty()) {
            auto q = m.query(s.X.back());
            s.acq = {afun(std::get<0>(q)), std::get<1>(q), opt::fun(aq(s.X.back(), afun, false))};
            double p = afun(m.mu(s.X.back()));
            s.diff = {p, s.agg.back(), std::abs(p - s.agg.back())};
        }
        s.kp = cat(s.total, m.kernel_function().h_params());
        s.mp = cat(s.total, m.mean_function().h_params());
        int d = R.dim_in, n = R.bins + 1, tot = 1;
        for (int i = 0; i < d; i++)
            tot *= n;
        for (int k = 0; k < tot; k++) {
            VectorXd x(d);
            int z = k;
            for (int i = 0; i < d; i++, z /= n)
                x(i) = (z % n) / (double)R.bins;
            auto q = m.query(x);
            Row r;
            for (int i = 0; i < d; i++)
                r.push_back(x(i));
            for (int i = 0; i < R.dim_out; i++)
                r.push_back(std::get<0>(q)(i));
            r.push_back(std::get<1>(q));
            r.push_back(opt::fun(aq(x, afun, false)));
            s.grid.push_back(r);
        }
        s.lik = m.compute_log_lik();
        snaps().push_back(s);
    }
};
static std::string W;
// numbers are written with the default six significant digits
static bool same(double got, double want) { return mon::near(got, want, 2e-5L * std::fabs(want) + 1e-300L) || (std::isnan(got) && std::isnan(want)); }
static bool tiny(double got, double want, double floor_) { return same(got, want) || mon::near(got, want, floor_); }
struct File {
    bool exists = false;
    std::vector<std::string> lines;
};
static File slurp(const fs::path& p)
{
    File f;
    std::ifstream i(p.string().c_str());
    f.exists = i.good();
    std::string l;
    while (std::getline(i, l))
        f.lines.push_back(l);
    return f;
}
static Row numbers(const std::string& l, bool& ok)
{
    Row r;
    std::istringstream i(l);
    std::string w;
    ok = true;
    while (i >> w) {
        char* e;
        r.push_back(std::strtod(w.c_str(), &e));
        if (*e)
            ok = false;
    }
    return r;
}
// want: rows of one segment each; a header comes before segment starts
struct Want {
    bool header;
    std::vector<Row> alts; // acceptable rows
};
static void compare(const fs::path& dir, const std::string& name, const std::vector<Want>& want, double floor_ = 1e-300)
{
    File f = slurp(dir / name);
    std::string key = "stat:" + name;
    if (want.empty()) {
        // nothing to write (the file may exist, empty)
        mon::check(f.lines.empty() || (f.lines.size() == 1 && f.lines[0][0] == '#'), key, mon::str(name, " has ", f.lines.size(), " lines although nothing happened ", W));
        return;
    }
    if (!mon::check(f.exists, key, name + " was not written " + W))
        return;
    size_t l = 0;
    for (size_t k = 0; k < want.size(); k++) {
        if (want[k].header) {
            if (!mon::check(l < f.lines.size() && !f.lines[l].empty() && f.lines[l][0] == '#' && f.lines[l].find("iteration") != std::string::npos, key + ":header", mon::str(name, " line ", l, " should be the header, but is '", l < f.lines.size() ? f.lines[l] : "<end>", "' ", W)))
                return;
            l++;
        }
        if (!mon::check(l < f.lines.size(), key + ":missing", mon::str(name, " ends after ", l, " lines ", W)))
            return;
        bool ok;
        Row got = numbers(f.lines[l], ok);
        bool any = false;
        for (auto& w : want[k].alts) {
            bool m = ok && got.size() == w.size();
            for (size_t i = 0; m && i < w.size(); i++)
                m = tiny(got[i], w[i], floor_);
            any = any || m;
        }
        mon::evaluation();
        if (!any) {
            std::ostringstream o;
            for (double v : want[k].alts[0])
                o << v << " ";
            mon::violation(key, mon::str(name, " line ", l, " is '", f.lines[l], "' instead of '", o.str(), "' ", W));
            return;
        }
        l++;
        mon::event("line of " + name);
    }
    mon::check(l == f.lines.size(), key + ":extra", mon::str(name, " has ", f.lines.size(), " lines instead of ", l, " ", W));
}
template <typename BO>
void one(mon::Rng& r, const char* tag, long c, bool noinit)
{
    R.dim_in = r.integer(1, 3);
    R.dim_out = r.coin() ? 1 : r.integer(2, 3);
    R.samples = r.integer(1, 6);
    R.bins = r.pick(std::vector<int>{1, 2, 3, 4, 5, 7, 10});
    if (R.dim_in == 3)
        R.bins = std::min(R.bins, 4);
    R.stats = !r.coin(0.12);
    R.scale = r.coin(0.2) ? r.logrange(1e-5, 1e5) : 1;
    R.off = r.coin(0.5) ? 0 : r.range(-20, 20);
    Afun af;
    af.k = r.integer(0, 3);
    fs::path top = fs::path(mon::S().scratch) / mon::str("case", c);
    fs::create_directories(top);
    if (chdir(top.string().c_str()))
        std::exit(3);
    snaps().clear();
    std::ostringstream con;
    struct Back {
        std::streambuf* old;
        ~Back() { std::cout.rdbuf(old); }
    } back{std::cout.rdbuf(con.rdbuf())};
    fs::path dir;
    int nruns = r.integer(1, 3);
    std::vector<std::string> plan;
    size_t before = 0;
    std::string hist;
    {
        BO bo;
        dir = bo.res_dir();
        for (int k = 0; k < nruns; k++) {
            bool reset = r.coin(0.4);
            R.iters = r.integer(0, 5);
            R.hp = r.pick(std::vector<int>{-1, 1, 2, 3});
            hist += mon::str(reset ? " reset" : " continue", "(", R.iters, ",hp=", R.hp, ")");
            bo.optimize(Fun(), af, reset);
            mon::check(bo.stats_enabled() == R.stats, "stat:enabled", "stats_enabled() is wrong");
        }
    }
    std::cout.rdbuf(back.old);
    W = mon::str("[", tag, hist, " in=", R.dim_in, " out=", R.dim_out, " init=", noinit ? 0 : R.samples, " bins=", R.bins, " aggregator ", af.k, "]");
    mon::sample(W);
    if (!R.stats) {
        size_t n = 0;
        for (fs::directory_iterator i(top), e; i != e; ++i)
            n++;
        mon::check(n == 0 && con.str().empty(), "stat:disabled", mon::str(n, " files or directories and ", con.str().size(), " characters were written with statistics disabled ", W));
        mon::event("run with statistics disabled");
        mon::evaluation();
    }
    else {
        std::vector<Want> S, O, A, BS, BO_, BA, AQ, KP, MP, LK, PD;
        std::map<std::string, const Snap*> grids;
        std::vector<Want> C;
        double ascale = 0;
        for (auto& s : snaps()) {
            bool h = s.total == 0;
            grids["gp_" + std::to_string(s.total) + ".dat"] = &s;
            if (s.X.empty())
                continue;
            size_t n = s.X.size();
            if (h)
                for (size_t i = 0; i + 1 < n; i++) {
                    S.push_back({i == 0, {cat(-1, s.X[i])}});
                    O.push_back({i == 0, {cat(-1, s.Y[i])}});
                    A.push_back({i == 0, {{-1, s.agg[i]}}});
                }
            double t = s.total;
            bool hh = h && n == 1;
            S.push_back({hh, {cat(t, s.X.back())}});
            O.push_back({hh, {cat(t, s.Y.back())}});
            A.push_back({hh, {{t, s.agg.back()}}});
            double best = *std::max_element(s.agg.begin(), s.agg.end());
            Want bs{h, {}}, bo{h, {}};
            for (size_t i = 0; i < n; i++)
                if (s.agg[i] == best) {
                    bs.alts.push_back(cat(t, s.X[i]));
                    bo.alts.push_back(cat(t, s.Y[i]));
                }
            BS.push_back(bs);
            BO_.push_back(bo);
            BA.push_back({h, {{t, best}}});
            Row aq = s.acq;
            aq.insert(aq.begin(), t);
            AQ.push_back({h, {aq}});
            KP.push_back({h, {s.kp}});
            MP.push_back({h, {s.mp}});
            LK.push_back({h, {{t, s.lik}}});
            Row pd = s.diff;
            pd.insert(pd.begin(), t);
            PD.push_back({h, {pd}});
            for (double v : s.agg)
                ascale = std::max(ascale, std::fabs(v));
            mon::Hash hsh;
            hsh.add(s.total).add(n).addv(s.X.back()).addv(s.Y.back());
            mon::distinct(hsh.h);
        }
        if (snaps().empty())
            mon::event("run without any iteration");
        else
            mon::event("run with iterations");
        compare(dir, "samples.dat", S);
        compare(dir, "observations.dat", O);
        compare(dir, "aggregated_observations.dat", A);
        compare(dir, "best_samples.dat", BS);
        compare(dir, "best_observations.dat", BO_);
        compare(dir, "best_aggregated_observations.dat", BA);
        double fl = 1e-9 * ascale + 1e-14;
        compare(dir, "gp_acquisitions.dat", AQ, fl);
        compare(dir, "gp_kernel_hparams.dat", KP, 1e-12);
        compare(dir, "gp_mean_hparams.dat", MP, 1e-12);
        compare(dir, "gp_likelihood.dat", LK, 1e-6);
        compare(dir, "gp_prediction_differences.dat", PD, fl);
        // predictions on the grid
        size_t ngp = 0;
        for (fs::directory_iterator i(dir), e; i != e; ++i) {
            std::string n = i->path().filename().string();
            if (n.size() > 3 && n.substr(0, 3) == "gp_" && isdigit(n[3])) {
                ngp++;
                mon::check(grids.count(n), "stat:gp-unexpected", n + " corresponds to no iteration " + W);
            }
        }
        for (auto& g : grids) {
            File f = slurp(dir / g.first);
            if (!mon::check(f.exists && !f.lines.empty() && f.lines[0][0] == '#', "stat:gp-file", g.first + " is missing or has no header " + W))
                continue;
            std::vector<Row> got;
            bool ok = true;
            for (size_t l = 1; l < f.lines.size(); l++) {
                bool o;
                got.push_back(numbers(f.lines[l], o));
                ok = ok && o;
            }
            std::vector<Row> want = g.second->grid;
            auto less = [&](const Row& a, const Row& b) {
                for (int i = 0; i < R.dim_in && i < (int)std::min(a.size(), b.size()); i++)
                    if (std::fabs(a[i] - b[i]) > 1e-4)
                        return a[i] < b[i];
                return false;
            };
            std::sort(got.begin(), got.end(), less);
            std::sort(want.begin(), want.end(), less);
            ok = ok && got.size() == want.size();
            size_t bad = 0;
            for (size_t k = 0; ok && k < want.size(); k++) {
                ok = got[k].size() == want[k].size();
                for (size_t i = 0; ok && i < want[k].size(); i++)
                    ok = tiny(got[k][i], want[k][i], (int)i < R.dim_in ? 1e-300 : fl);
                bad = k;
            }
            mon::evaluation();
            mon::event("grid file");
            mon::event("grid points", want.size());
            mon::check(ok, "stat:gp", mon::str(g.first, " has ", f.lines.size() - 1, " rows for ", want.size(), " grid points, or row ", bad, " differs from the model's prediction ", W));
        }
        // console
        std::istringstream in(con.str());
        std::string l;
        size_t k = 0;
        std::vector<const Snap*> cs;
        for (auto& s : snaps())
            if (!s.X.empty())
                cs.push_back(&s);
        bool ok = true;
        while (std::getline(in, l)) {
            if (k >= cs.size()) {
                ok = false;
                break;
            }
            const Snap& s = *cs[k++];
            Row g;
            std::string clean;
            for (size_t i = 0; i < l.size(); i++)
                clean += (isdigit(l[i]) || strchr("+-.", l[i]) || (l[i] == 'e' && i && isdigit(l[i - 1]) && i + 1 < l.size() && (l[i + 1] == '-' || l[i + 1] == '+'))) ? l[i] : ' ';
            bool o;
            g = numbers(clean, o);
            Row w = cat(s.total, s.X.back());
            w.push_back(s.agg.back());
            w.push_back(*std::max_element(s.agg.begin(), s.agg.end()));
            bool m = g.size() == w.size();
            for (size_t i = 0; m && i < w.size(); i++)
                m = same(g[i], w[i]);
            ok = ok && m;
            mon::event("console line");
            if (!m)
                break;
        }
        mon::check(ok && k == cs.size(), "stat:console", mon::str("console summary line ", k, " of ", cs.size(), ": '", l, "' ", W));
    }
    if (chdir("/"))
        std::exit(3);
    fs::remove_all(top);
}
#if COMBO == 0
typedef model::GP<P, kernel::MaternFiveHalves<P>, mean::Data<P>, model::gp::KernelLFOpt<P, opt::Rprop<P>>> Gp;
typedef acqui::GP_UCB<P, Gp> Acq;
typedef boost::fusion::vector<Recorder<P>, limbo::stat::Samples<P>, limbo::stat::Observations<P>, limbo::stat::AggregatedObservations<P>, limbo::stat::BestSamples<P>, limbo::stat::BestObservations<P>, limbo::stat::BestAggregatedObservations<P>,
    limbo::stat::ConsoleSummary<P>, limbo::stat::GPAcquisitions<P>, limbo::stat::GPKernelHParams<P>, limbo::stat::GPMeanHParams<P>, limbo::stat::GPLikelihood<P>, limbo::stat::GPPredictionDifferences<P>, limbo::stat::GP<P>>
    Stats;
#else
typedef model::GP<P, kernel::SquaredExpARD<P>, mean::FunctionARD<P, mean::Constant<P>>, model::gp::KernelMeanLFOpt<P, opt::Rprop<P>>> Gp;
typedef acqui::EI<P, Gp> Acq;
typedef boost::fusion::vector<limbo::stat::GP<P>, limbo::stat::GPPredictionDifferences<P>, limbo::stat::GPLikelihood<P>, limbo::stat::GPMeanHParams<P>, limbo::stat::GPKernelHParams<P>, limbo::stat::GPAcquisitions<P>, limbo::stat::ConsoleSummary<P>,
    limbo::stat::BestAggregatedObservations<P>, limbo::stat::BestObservations<P>, limbo::stat::BestSamples<P>, limbo::stat::AggregatedObservations<P>, limbo::stat::Observations<P>, limbo::stat::Samples<P>, Recorder<P>>
    Stats;
#endif
template <typename Init>
using BO = bayes_opt::BOptimizer<P, initfun<Init>, modelfun<Gp>, acquifun<Acq>, acquiopt<opt::RandomPoint<P>>, statsfun<Stats>, stopcrit<stop::MaxIterations<P>>>;
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    if (mon::S().scratch.empty())
        mon::S().scratch = "/tmp";
    mon::run_cases([&](long c, mon::Rng& r) {
        kit::random_cfg(r, COMBO ? ref::SE : ref::M52);
        kit::cfg().se_k = 0;
        kit::cfg().rprop_iter = 20;
        if (r.coin(0.3))
            one<BO<init::NoInit<P>>>(r, "no init", c, true);
        else
            one<BO<init::LHS<P>>>(r, "lhs", c, false);
    });
    return mon::finish();
}
