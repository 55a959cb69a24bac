// C37: the multi-objective optimisers, with recording models and inner optimisers.
#include "mon.hpp"
#include <Eigen/Core>
#include <boost/filesystem.hpp>
#include <limbo/limbo.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#include <limbo/experimental/stat/pareto_benchmark.hpp>
using Eigen::VectorXd;
typedef std::vector<VectorXd> Vs;
typedef long double ld;
namespace fs = boost::filesystem;
namespace eb = limbo::experimental::bayes_opt;

static struct Set {
    int iterations = 3, samples = 4, outs = 2;
    double ref[2] = {-1, -1};
    double noise = 0.01;
    int style = 0;
    bool stats = false;
} g;
struct Params {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return g.stats; }
        BO_PARAM(bool, bounded, true);
    };
    struct init_randomsampling {
        static int samples() { return g.samples; }
    };
    struct stop_maxiterations {
        static int iterations() { return g.iterations; }
    };
    struct kernel : limbo::defaults::kernel {
        static double noise() { return g.noise; }
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct bayes_opt_ehvi {
        static double x_ref() { return g.ref[0]; }
        static double y_ref() { return g.ref[1]; }
    };
    struct acqui_ucb : limbo::defaults::acqui_ucb {
    };
    struct opt_gridsearch {
        BO_PARAM(int, bins, 5);
    };
};
// a model with arbitrary but reproducible predictions
struct Fake {
    int din = -1, dout = -1;
    Vs X, Y;
    Fake() {}
    Fake(int i, int o) : din(i), dout(o) {}
    void compute(const Vs& x, const Vs& y)
    {
        X = x;
        Y = y;
    }
    VectorXd mu(const VectorXd& v) const
    {
        double s = 0, w = 0;
        for (size_t i = 0; i < X.size(); i++) {
            double k = 1. / (1e-2 + (X[i] - v).squaredNorm());
            s += k * Y[i](0);
            w += k;
        }
        return VectorXd::Constant(1, s / w + 0.3 * std::sin(9 * v.sum()));
    }
    double sigma(const VectorXd& v) const
    {
        double d = 10;
        for (size_t i = 0; i < X.size(); i++)
            d = std::min(d, (X[i] - v).norm());
        return 1e-4 + d * d * (1 + std::fabs(Y[0](0)));
    }
    VectorXd max_observation() const
    {
        double m = Y[0](0);
        for (auto& y : Y)
            m = std::max(m, y(0));
        return VectorXd::Constant(1, m);
    }
};
typedef limbo::model::GP<Params, limbo::kernel::MaternFiveHalves<Params>, limbo::mean::Data<Params>> RealGP;

static mon::Rng*& rng()
{
    static mon::Rng* r = nullptr;
    return r;
}
template <int D>
static VectorXd any()
{
    VectorXd x(D);
    for (int i = 0; i < D; i++)
        x(i) = rng()->unit();
    return x;
}
// what was evaluated, in order
static Vs &EX()
{
    static Vs v;
    return v;
}
static Vs &EY()
{
    static Vs v;
    return v;
}
template <int D>
struct Fun {
    BO_PARAM(size_t, dim_in, D);
    static size_t dim_out() { return g.outs; }
    static VectorXd value(const VectorXd& x)
    {
        VectorXd y(g.outs);
        for (int k = 0; k < g.outs; k++)
            switch (g.style) {
            case 0: y(k) = k ? 1 - x(0) * x(0) + 0.1 * std::sin(5 * x.sum()) : x(0); break;
            case 1: y(k) = std::round(4 * (k ? 1 - x(0) : x.mean())) / 4; break;
            case 2: y(k) = k % 2 ? -3 * x.sum() : 10 * std::cos(7 * x(0)); break;
            default: y(k) = std::sin((k + 3) * x.sum()) + k;
            }
        return y;
    }
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y = value(x);
        EX().push_back(x);
        EY().push_back(y);
        return y;
    }
};
static int dom(const VectorXd& a, const VectorXd& b)
{
    bool ge = true, gt = false;
    for (long i = 0; i < a.size(); i++) {
        ge = ge && a(i) >= b(i);
        gt = gt || a(i) > b(i);
    }
    return ge && gt;
}
static std::vector<int> front(const Vs& v)
{
    std::vector<int> out;
    for (size_t i = 0; i < v.size(); i++) {
        bool d = false;
        for (auto& o : v)
            d = d || dom(o, v[i]);
        if (!d)
            out.push_back(i);
    }
    return out;
}
static ld G(ld a, ld mu, ld s)
{
    if (std::isinf(a))
        return 0;
    ld t = (a - mu) / s;
    return s * (expl(-t * t / 2) / sqrtl(2 * acosl(-1.L)) - t * 0.5L * erfcl(t / sqrtl(2.L)));
}
// expected gain of hypervolume above the reference; points not above it dominate nothing there
static ld ehvi(const Vs& Y, const double* mu, const double* s)
{
    std::vector<double> c[2];
    for (int k = 0; k < 2; k++) {
        c[k].push_back(g.ref[k]);
        for (auto& y : Y)
            c[k].push_back(std::max(g.ref[k], y(k)));
        std::sort(c[k].begin(), c[k].end());
        c[k].erase(std::unique(c[k].begin(), c[k].end()), c[k].end());
        c[k].push_back(INFINITY);
    }
    ld sum = 0;
    for (size_t x = 0; x + 1 < c[0].size(); x++)
        for (size_t y = 0; y + 1 < c[1].size(); y++) {
            bool d = false;
            for (auto& q : Y)
                d = d || (q(0) >= c[0][x + 1] && q(1) >= c[1][y + 1]);
            if (!d)
                sum += (G(c[0][x], mu[0], s[0]) - G(c[0][x + 1], mu[0], s[0])) * (G(c[1][y], mu[1], s[1]) - G(c[1][y + 1], mu[1], s[1]));
        }
    return sum;
}
// independent models of what has been evaluated so far
template <typename M>
struct Oracle {
    std::vector<M> m;
    size_t n = 0;
    void refresh(const Vs& X, const Vs& Y, int D)
    {
        if (n == X.size() && m.size())
            return;
        n = X.size();
        m.assign(Y[0].size(), M(D, 1));
        for (size_t k = 0; k < m.size(); k++) {
            Vs y;
            for (auto& v : Y)
                y.push_back(VectorXd::Constant(1, v(k)));
            m[k].compute(X, y);
        }
    }
    ld value(const Vs& Y, const VectorXd& x, double& tol) const
    {
        double mu[2], s[2];
        tol = 2e-9;
        for (int k = 0; k < 2; k++) {
            mu[k] = m[k].mu(x)(0);
            s[k] = std::sqrt(m[k].sigma(x));
            double range = 0;
            for (auto& y : Y)
                range = std::max(range, y(k) - g.ref[k]);
            tol *= range + std::fabs(mu[k] - g.ref[k]) + s[k];
        }
        return ehvi(Y, mu, s);
    }
};
static bool below_ref()
{
    for (int i : front(EY()))
        if (EY()[i](0) <= g.ref[0] || EY()[i](1) <= g.ref[1])
            return true;
    return false;
}
// calls of the inner optimiser since the last evaluation
struct Call {
    VectorXd start, result;
    ld value;
};
static std::vector<Call>& calls()
{
    static std::vector<Call> c;
    return c;
}
static std::string where()
{
    return mon::str("[", EX().size(), " evaluated, style ", g.style, ", reference ", g.ref[0], ",", g.ref[1], ", noise ", g.noise, below_ref() ? ", front reaches below the reference" : "", "]");
}
template <typename M, int D>
static Oracle<M>& oracle()
{
    static Oracle<M> o;
    return o;
}
template <typename M, int D>
struct Inner {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        auto& o = oracle<M, D>();
        o.refresh(EX(), EY(), D);
        mon::check(bounded, "ehvi-bounded", "the acquisition function was maximised without bounds");
        mon::check(init.size() == D, "ehvi-start", mon::str("the inner optimisation starts from a point of ", init.size(), " dimensions"));
        bool pareto = false;
        for (int i : front(EY()))
            pareto = pareto || EX()[i] == init;
        mon::check(pareto, "ehvi-start", "the inner optimisation does not start from a Pareto-optimal sample " + where());
        VectorXd best = init;
        double bv = -1;
        for (int t = rng()->integer(1, 6); t > 0; t--) {
            VectorXd x = rng()->coin(0.2) ? VectorXd(EX()[rng()->integer(0, EX().size() - 1)]) : any<D>();
            double tol;
            ld want = o.value(EY(), x, tol);
            double got = limbo::opt::eval(f, x);
            mon::check(std::fabs((double)(got - want)) <= tol, "ehvi-acquisition", mon::str("the acquisition function gives ", got, " instead of ", (double)want, " ", where()));
            mon::event(want > 100 * tol ? "acquisition values" : "acquisition values near zero");
            if (below_ref())
                mon::event("acquisition values, front below the reference");
            mon::evaluation();
            if (got > bv || rng()->coin(0.1)) {
                best = x;
                bv = got;
            }
        }
        double tol;
        calls().push_back(Call{init, best, o.value(EY(), best, tol)});
        return best;
    }
};
static int g_stats = 0;
template <typename M, int D>
struct Rec {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        g_stats++;
        mon::check(bo.samples() == EX() && bo.observations() == EY(), "multi-record", "the recorded samples or observations are not those evaluated " + where());
        mon::check(bo.models().size() == EY()[0].size() && bo.nb_objs() == (size_t)EY()[0].size(), "multi-models", mon::str(bo.models().size(), " models for ", EY()[0].size(), " objectives"));
        mon::check(afun(EY()[0]) == EY()[0](0), "multi-aggregator", "the aggregator passed to the statistics");
    }
};
template <typename M, int D>
struct EhviRec : Rec<M, D> {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        Rec<M, D>::operator()(bo, afun);
        // before the last evaluation
        Vs X(EX().begin(), EX().end() - 1), Y(EY().begin(), EY().end() - 1);
        auto& o = oracle<M, D>();
        std::vector<int> f = front(Y);
        mon::check(!calls().empty(), "ehvi-optimised", "a point was evaluated without maximising the acquisition function");
        for (int i : f) {
            bool used = false;
            for (auto& c : calls())
                used = used || Fun<D>::value(c.start) == Y[i];
            mon::check(used, "ehvi-start", "a Pareto-optimal sample was not used as a start " + where());
        }
        bool among = false;
        ld best = -1, chosen = -1;
        for (auto& c : calls()) {
            best = std::max(best, c.value);
            if (c.result == EX().back()) {
                among = true;
                chosen = std::max(chosen, c.value);
            }
        }
        mon::check(among, "ehvi-choice", "the evaluated point was not proposed by the inner optimiser " + where());
        double tol = 0;
        if (among) {
            double mu[2], s[2];
            (void)mu;
            (void)s;
            o.refresh(X, Y, D);
            o.value(Y, EX().back(), tol);
            mon::check(chosen >= best - 10 * tol, "ehvi-choice", mon::str("the evaluated point has value ", (double)chosen, ", another proposal ", (double)best, " ", where()));
        }
        if (calls().size() > 1)
            mon::event("iterations with several proposals");
        calls().clear();
        // what the optimiser predicts comes from all the data before this evaluation
        for (int t = 0; t < 2; t++) {
            VectorXd x = any<D>();
            for (size_t k = 0; k < bo.models().size(); k++)
                mon::check(std::fabs(bo.models()[k].mu(x)(0) - o.m[k].mu(x)(0)) < 1e-9 * (1 + std::fabs(o.m[k].mu(x)(0))) && std::fabs(bo.models()[k].sigma(x) - o.m[k].sigma(x)) < 1e-9 * (1 + o.m[k].sigma(x)), "multi-models", mon::str("model ", k, " does not predict its own objective ", where()));
        }
        mon::event("iterations of Ehvi");
        mon::Hash h;
        h.addv(EX().back()).addv(EY().back());
        mon::distinct(h.h);
    }
};
template <typename M, int D>
struct NsboRec : Rec<M, D> {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A& afun)
    {
        Rec<M, D>::operator()(bo, afun);
        Vs X(EX().begin(), EX().end() - 1), Y(EY().begin(), EY().end() - 1);
        auto& o = oracle<M, D>();
        o.refresh(X, Y, D);
        auto& p = bo.pareto_model();
        mon::check(!p.empty(), "nsbo-front", "empty model front");
        Vs sig;
        int at = -1;
        for (size_t i = 0; i < p.size(); i++) {
            const VectorXd &x = std::get<0>(p[i]), &y = std::get<1>(p[i]), &s = std::get<2>(p[i]);
            bool ok = x.size() == D && y.size() == (long)o.m.size() && s.size() == y.size();
            mon::check(ok, "nsbo-front", "an element of the model front has a wrong size");
            if (!ok)
                return;
            for (int k = 0; k < y.size(); k++) {
                double my = std::min(o.m[k].mu(x)(0), o.m[k].max_observation()(0)), ms = o.m[k].sigma(x);
                // the objectives go through single precision in sferes
                mon::check(std::fabs(y(k) - my) <= 1e-6 * (1 + std::fabs(my)), "nsbo-objective", mon::str("objective ", k, " of the model front is ", y(k), " instead of ", my, " ", where()));
                mon::check(std::fabs(s(k) - ms) <= 1e-9 * (1 + ms), "nsbo-variance", mon::str("variance ", k, " of the model front is ", s(k), " instead of ", ms, " ", where()));
                mon::event("model front values");
            }
            sig.push_back(s);
            if (x == EX().back())
                at = i;
        }
        mon::check(at >= 0, "nsbo-choice", "the evaluated point is not on the front of the models " + where());
        if (at >= 0) {
            bool d = false;
            for (auto& s : sig)
                d = d || dom(s, sig[at]);
            mon::check(!d, "nsbo-choice", "another point of the front is more uncertain in every objective " + where());
            if (p.size() > front(sig).size())
                mon::event("choice among the most uncertain");
        }
        mon::event("iterations of Nsbo");
        mon::evaluation();
        mon::Hash h;
        h.addv(EX().back()).addv(EY().back());
        mon::distinct(h.h);
    }
};
static std::vector<std::vector<double>> rows(const std::string& f, bool& ok)
{
    std::ifstream in(f.c_str());
    ok = ok && in.good();
    std::vector<std::vector<double>> o;
    std::string l;
    while (std::getline(in, l)) {
        std::istringstream s(l);
        std::vector<double> row;
        double z;
        while (s >> z)
            row.push_back(z);
        o.push_back(row);
    }
    return o;
}
static bool like(const std::vector<double>& row, const VectorXd& a, const VectorXd& b = VectorXd())
{
    if ((long)row.size() != a.size() + b.size())
        return false;
    for (size_t i = 0; i < row.size(); i++) {
        double w = (long)i < a.size() ? a(i) : b(i - a.size());
        if (std::fabs(row[i] - w) > 1e-5 * std::fabs(w) + 1e-300)
            return false;
    }
    return true;
}
// reads back what the statistic before it wrote
template <int D>
struct BenchRec {
    template <typename BO, typename A>
    void operator()(const BO& bo, const A&)
    {
        bool ok = true;
        std::string d = bo.res_dir() + "/", it = std::to_string(bo.current_iteration()) + ".dat";
        auto obs = rows(d + "obs_" + it, ok), data = rows(d + "pareto_data_" + it, ok), model = rows(d + "pareto_model_" + it, ok), real = rows(d + "pareto_model_real_" + it, ok);
        mon::check(ok, "bench-files", "a file of the Pareto benchmark is missing");
        // F is also called on the front: those calls are not evaluations of the run
        ok = obs.size() == bo.samples().size();
        for (size_t i = 0; ok && i < obs.size(); i++)
            ok = like(obs[i], bo.observations()[i], bo.samples()[i]);
        mon::check(ok, "bench-obs", "obs file does not hold the observations and samples in order " + where());
        std::vector<int> f = front(bo.observations());
        ok = true;
        for (auto& row : data) {
            bool in = false;
            for (int i : f)
                in = in || like(row, bo.observations()[i]);
            ok = ok && in;
        }
        for (int i : f) {
            bool in = false;
            for (auto& row : data)
                in = in || like(row, bo.observations()[i]);
            ok = ok && in;
        }
        mon::check(ok, "bench-data", mon::str("pareto_data file (", data.size(), " lines) is not the Pareto set of the observations (", f.size(), ") ", where()));
        auto& p = bo.pareto_model();
        ok = model.size() == p.size() && real.size() == p.size();
        for (size_t i = 0; ok && i < p.size(); i++)
            ok = like(model[i], std::get<1>(p[i]), std::get<2>(p[i])) && like(real[i], Fun<D>::value(std::get<0>(p[i])));
        mon::check(ok, "bench-model", "pareto_model files do not hold the front of the models " + where());
        mon::event("Pareto benchmarks");
        mon::event("lines of the model front", p.size());
    }
};
// the optimum found by the real inner optimiser of the same class
template <int D>
struct PureFun : Fun<D> {
    VectorXd operator()(const VectorXd& x) const { return Fun<D>::value(x); }
};
static void setup(mon::Rng& r, bool nsbo)
{
    rng() = &r;
    EX().clear();
    EY().clear();
    calls().clear();
    g = Set();
    g.iterations = r.integer(0, 5);
    g.samples = r.integer(1, 10);
    g.noise = r.pick(std::vector<double>{1e-6, 0.01, 0.1});
    g.style = r.integer(0, 3);
    g.outs = nsbo ? r.integer(2, 3) : 2;
    for (int k = 0; k < 2; k++)
        g.ref[k] = r.coin(0.4) ? -11 : r.coin(0.4) ? r.range(-4, -3.2) : r.range(-2, 0.5);
    sferes::shim_size() = r.integer(1, 40);
    sferes::shim_gene() = [&r]() { return (float)r.unit(); };
    std::srand(r.integer(1, 1 << 30));
}
template <typename BO, int D, typename Orc>
static void drive(BO& o, Orc& orc, mon::Rng& r)
{
    int runs = r.integer(1, 3);
    for (int t = 0; t < runs; t++) {
        bool reset = t == 0 || r.coin();
        size_t n0 = reset ? 0 : EX().size();
        int tot = reset ? 0 : o.total_iterations();
        if (reset) {
            EX().clear();
            EY().clear();
        }
        g_stats = 0;
        orc.n = 0;
        o.optimize(Fun<D>(), reset);
        size_t fresh = (reset || tot == 0) ? g.samples : 0;
        mon::check(EX().size() == n0 + fresh + g.iterations, "multi-evaluations", mon::str(EX().size() - n0, " evaluations instead of ", fresh + g.iterations));
        mon::check(g_stats == g.iterations, "multi-stats", mon::str("statistics called ", g_stats, " times in ", g.iterations, " iterations"));
        mon::check(o.current_iteration() == g.iterations && o.total_iterations() == tot + g.iterations, "multi-iterations", mon::str("iterations counted: ", o.current_iteration(), ", ", o.total_iterations()));
        mon::check(o.samples() == EX() && o.observations() == EY(), "multi-record", "samples and observations after the run are not those evaluated");
        // asked for at the end of a run
        o.update_pareto_data();
        std::vector<int> f = front(EY());
        bool ok = true;
        for (auto& e : o.pareto_data()) {
            bool in = false;
            for (int i : f)
                in = in || (std::get<0>(e) == EX()[i] && std::get<1>(e) == EY()[i]);
            ok = ok && in && std::get<2>(e).size() == EY()[0].size() && std::get<2>(e).isZero();
        }
        for (int i : f) {
            bool in = false;
            for (auto& e : o.pareto_data())
                in = in || std::get<1>(e) == EY()[i];
            ok = ok && in;
        }
        mon::check(ok, "multi-pareto", "pareto_data is not the Pareto set of the observations " + where());
        mon::event("runs");
    }
}
template <typename M, int D>
static void ehvi_case(mon::Rng& r)
{
    setup(r, false);
    eb::Ehvi<Params, limbo::modelfun<M>, limbo::acquiopt<Inner<M, D>>, limbo::statsfun<boost::fusion::vector<EhviRec<M, D>>>> o;
    oracle<M, D>() = Oracle<M>();
    drive<decltype(o), D>(o, oracle<M, D>(), r);
}
template <typename M, int D>
static void nsbo_case(mon::Rng& r)
{
    setup(r, true);
    eb::Nsbo<Params, limbo::statsfun<boost::fusion::vector<NsboRec<M, D>>>, limbo::modelfun<M>> o;
    oracle<M, D>() = Oracle<M>();
    drive<decltype(o), D>(o, oracle<M, D>(), r);
}
template <int D>
static void bench_case(mon::Rng& r)
{
    setup(r, false);
    g.stats = true;
    g.iterations = r.integer(1, 3);
    std::string dir;
    {
        eb::Ehvi<Params, limbo::modelfun<Fake>, limbo::acquiopt<Inner<Fake, D>>, limbo::statsfun<boost::fusion::vector<limbo::experimental::stat::ParetoBenchmark<PureFun<D>>, BenchRec<D>>>> o;
        oracle<Fake, D>() = Oracle<Fake>();
        dir = o.res_dir();
        o.optimize(Fun<D>());
    }
    if (!dir.empty() && dir[0] != '/')
        fs::remove_all(dir);
    mon::evaluation();
}
// the criterion on its own, with models of several outputs and a user's aggregator
struct Pred {
    VectorXd a, b;
    double s2;
    VectorXd mu(const VectorXd& x) const { return a + b * x(0); }
    double sigma(const VectorXd& x) const { return s2 * (1 + x(0) * x(0)); }
};
struct Agg {
    typedef double result_type;
    VectorXd w;
    double c;
    double operator()(const VectorXd& v) const { return v.dot(w) + c; }
};
static void criterion(mon::Rng& r)
{
    int outs = r.integer(1, 3);
    auto vec = [&](int n, double l, double u) {
        VectorXd v(n);
        for (int i = 0; i < n; i++)
            v(i) = r.range(l, u);
        return v;
    };
    for (int k = 0; k < 2; k++)
        g.ref[k] = r.coin() ? 0 : r.range(-3, 3);
    Vs Y;
    std::deque<individual*> pop;
    for (int i = r.integer(0, 6); i > 0; i--) {
        VectorXd y(2);
        y << g.ref[0] + r.range(0.01, 3), g.ref[1] + r.range(0.01, 3);
        Y.push_back(y);
    }
    double range = 1;
    Vs Z;
    for (int i : front(Y)) {
        Z.push_back(Y[i]);
        pop.push_back(new individual{{Y[i](0), Y[i](1), 0}});
        range = std::max(range, (Y[i] - Eigen::Map<const VectorXd>(g.ref, 2)).maxCoeff());
    }
    std::vector<Pred> models;
    for (int k = 0; k < 2; k++)
        models.push_back(Pred{vec(outs, -2, 3), vec(outs, -2, 2), r.logrange(1e-4, 4)});
    Agg afun{vec(outs, -2, 2), r.range(-1, 1)};
    limbo::acqui::Ehvi<Params, Pred> acqui(models, pop, Eigen::Vector3d(g.ref[0], g.ref[1], 0));
    for (int t = 0; t < 3; t++) {
        VectorXd x = vec(1, 0, 1);
        for (int own = 0; own < 2; own++) {
            double mu[2], s[2], tol = 2e-9;
            for (int k = 0; k < 2; k++) {
                VectorXd m = models[k].a + models[k].b * x(0);
                mu[k] = own ? m.dot(afun.w) + afun.c : m(0);
                s[k] = std::sqrt(models[k].s2 * (1 + x(0) * x(0)));
                tol *= range + std::fabs(mu[k] - g.ref[k]) + s[k];
            }
            ld want = ehvi(Z, mu, s);
            double got = own ? acqui(x, afun) : acqui(x);
            mon::check(std::fabs((double)(got - want)) <= tol, "ehvi-criterion", mon::str("the criterion gives ", got, " instead of ", (double)want, own ? " with a user's aggregator" : "", " [", Z.size(), " points, ", outs, " outputs, means ", mu[0], ",", mu[1], "]"));
            mon::event(own ? "criterion with an aggregator" : "criterion", want > 100 * tol);
            mon::evaluation();
        }
    }
    for (auto p : pop)
        delete p;
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    static std::ofstream& null = *new std::ofstream("/dev/null"); // std::cout is flushed after main
    std::cout.rdbuf(null.rdbuf());
    mon::run_cases([&](long c, mon::Rng& r) {
        switch (c % 8) {
        case 0: ehvi_case<Fake, 1>(r); break;
        case 1: ehvi_case<Fake, 2>(r); break;
        case 2: ehvi_case<RealGP, 2>(r); break;
        case 3: ehvi_case<RealGP, 4>(r); break;
        case 4: nsbo_case<Fake, 2>(r); break;
        case 5: nsbo_case<RealGP, 1>(r); break;
        case 6: nsbo_case<RealGP, 3>(r); break;
        default: bench_case<2>(r);
        }
        for (int i = 0; i < 3; i++) {
            mon::Rng q(r.u64());
            criterion(q);
        }
    });
    if (EX().size())
        mon::sample(mon::str("run ending in (", EX().back().transpose(), ") -> (", EY().back().transpose(), ")"));
    return mon::finish();
}
