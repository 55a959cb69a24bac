// C25: everything the library runs in parallel, on the seeded TBB stand-in
// under ThreadSanitizer; results against a serial run of the same operations.
#include "gpkit.hpp"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
#include <limbo/stop/max_iterations.hpp>
#if PART == 2
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#endif
using namespace kit;
using namespace limbo;
struct Run {
    int dim_in = 1, dim_out = 1, iters = 3, samples = 4, repeats = 6, bins = 3, hp = -1;
    double eps = 0.1;
} R;
struct P : kit::Params {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return false; }
        static bool bounded() { return true; }
    };
    struct bayes_opt_boptimizer {
        static int hp_period() { return R.hp; }
    };
    struct stop_maxiterations {
        static int iterations() { return R.iters; }
    };
    struct init_lhs {
        static int samples() { return R.samples; }
    };
    struct init_randomsampling : init_lhs {
    };
    struct acqui_ucb {
        static double alpha() { return 0.5; }
    };
    struct acqui_gpucb {
        static constexpr double delta() { return 0.1; }
    };
    struct acqui_ei {
        static double jitter() { return 0.; }
    };
    struct acqui_eci : acqui_ei {
    };
    struct opt_parallelrepeater {
        static int repeats() { return R.repeats; }
        static double epsilon() { return R.eps; }
    };
    struct opt_gridsearch {
        static int bins() { return R.bins; }
    };
};
#if PART == 2
static double REF[2];
struct P2 : P {
    struct bayes_opt_ehvi {
        static double x_ref() { return REF[0]; }
        static double y_ref() { return REF[1]; }
    };
    struct opt_nloptnograd {
        BO_PARAM(int, iterations, 40);
        BO_PARAM(double, fun_tolerance, -1);
        BO_PARAM(double, xrel_tolerance, -1);
    };
};
#endif
static tbb::shim::Ctl& ctl() { return tbb::shim::ctl(); }
static std::string W;
static double diff(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() ? (a.size() ? (a - b).cwiseAbs().maxCoeff() : 0) : 1e300; }

#if PART == 2
// ---- the multi-objective optimiser maximises its criterion from every point of the front at once
typedef model::GP<P2, kernel::MaternFiveHalves<P2>, mean::Data<P2>> GP2;
struct Fun2 {
    static constexpr size_t dim_in() { return 2; }
    static constexpr size_t dim_out() { return 2; }
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y(2);
        y << -(x - VectorXd::Constant(2, 0.2)).squaredNorm() + 0.1 * std::sin(9 * x(1)), -(x - VectorXd::Constant(2, 0.8)).squaredNorm() + 0.1 * std::cos(7 * x(0));
        return y;
    }
};
// an optimiser with a memory, as those of NLOpt are
struct Mine {
    VectorXd best, at;
    double top = 0;
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool)
    {
        at = best = init;
        top = opt::eval(f, init);
        for (int i = 0; i < 12; i++) {
            for (long j = 0; j < at.size(); j++)
                at(j) = std::fmod(at(j) + 0.381966 * (j + 1) + 0.01 * i, 1.);
            double v = opt::eval(f, at);
            if (v > top) {
                top = v;
                best = at;
            }
        }
        return best;
    }
};
struct Quiet {
    template <typename B, typename A>
    void operator()(const B&, const A&) {}
};
struct Given {
    static Vs& from()
    {
        static Vs v;
        return v;
    }
    template <typename F, typename A, typename O>
    void operator()(const F& f, const A&, O& o) const
    {
        for (auto& x : from())
            o.eval_and_add(f, x);
    }
};
template <typename Inner>
static void ehvi(mon::Rng& r, const char* name)
{
    R.iters = r.integer(1, 4);
    R.samples = r.integer(2, 8);
    REF[0] = -r.range(1, 3);
    REF[1] = -r.range(1, 3);
    std::vector<VectorXd> X[2];
    Vs start;
    for (int i = 0; i < R.samples; i++) {
        VectorXd x(2);
        x << r.unit(), r.unit();
        start.push_back(x);
    }
    Given::from() = start;
    for (int rep = 0; rep < 2; rep++) {
        ctl().serial = rep == 0;
        ctl().seed = r.u64();
        experimental::bayes_opt::Ehvi<P2, modelfun<GP2>, initfun<Given>, acquiopt<Inner>, statsfun<boost::fusion::vector<Quiet>>, stopcrit<stop::MaxIterations<P2>>> b;
        b.optimize(Fun2());
        X[rep] = b.samples();
    }
    ctl().serial = false;
    mon::event(std::string("multi-objective runs with ") + name);
    if (!mon::check(X[0].size() == X[1].size(), "ehvi-runs", mon::str(name, ": ", X[1].size(), " samples instead of ", X[0].size())))
        return;
    for (size_t i = start.size(); i < X[0].size(); i++) {
        mon::evaluation();
        if (X[0][i] == X[1][i]) {
            mon::event("same point chosen");
            continue;
        }
        // only points that are equally good may be exchanged
        std::vector<GP2> models;
        for (int o = 0; o < 2; o++) {
            Vs y;
            for (size_t k = 0; k < i; k++) {
                VectorXd v(1);
                v << Fun2()(X[0][k])(o);
                y.push_back(v);
            }
            GP2 g(2, 1);
            g.compute(Vs(X[0].begin(), X[0].begin() + i), y);
            models.push_back(g);
        }
        std::vector<individual> in;
        std::deque<individual*> pop;
        for (size_t k = 0; k < i; k++) {
            VectorXd y = Fun2()(X[0][k]);
            bool dom = !(y(0) > REF[0] && y(1) > REF[1]);
            for (size_t q = 0; q < i; q++) {
                VectorXd z = Fun2()(X[0][q]);
                dom = dom || (z(0) >= y(0) && z(1) >= y(1) && (z != y || q < k));
            }
            if (dom)
                continue;
            individual d;
            d.f[0] = y(0);
            d.f[1] = y(1);
            d.f[2] = 0;
            in.push_back(d);
        }
        for (auto& d : in)
            pop.push_back(&d);
        acqui::Ehvi<P2, GP2> a(models, pop, Eigen::Vector3d(REF[0], REF[1], 0));
        double u = a(X[0][i]), v = a(X[1][i]);
        mon::event("another point chosen");
        mon::check(std::fabs(u - v) <= 1e-9 * (1 + std::fabs(u)), "ehvi-parallel", mon::str(name, ": maximised by several threads, the criterion is ", v, " instead of ", u));
        return;
    }
}
#endif
#if PART == 0
// ---- multi-output models
template <typename M>
static std::vector<VectorXd> multi_ops(uint64_t seed, int d, int o)
{
    mon::Rng r(seed);
    std::vector<VectorXd> out;
    M m(d, o);
    Vs X, Y;
    int n = r.integer(2, 12);
    for (int i = 0; i < n; i++) {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.unit();
        X.push_back(x);
        Y.push_back(random_obs(r, o, 1, 0.3));
    }
    m.compute(X, Y, r.coin(0.8));
    m.recompute(true, true);
    int steps = r.integer(1, 5);
    for (int s = 0; s < steps; s++) {
        switch (r.integer(0, 4)) {
        case 0: {
            VectorXd x(d);
            for (int j = 0; j < d; j++)
                x(j) = r.unit();
            m.add_sample(x, random_obs(r, o, 1, 0.3));
            break;
        }
        case 1: m.optimize_hyperparams(); break;
        case 2: m.recompute(r.coin(), true); break;
        case 3: m.recompute(true, false); break;
        default: {
            for (auto& g : m.gp_models()) {
                VectorXd h = g.kernel_function().h_params();
                for (long i = 0; i < h.size(); i++)
                    h(i) = std::log(r.logrange(0.3, 2));
                g.kernel_function().set_h_params(h);
            }
            m.recompute(true, true);
        }
        }
        for (int q = 0; q < 2; q++) {
            VectorXd x(d);
            for (int j = 0; j < d; j++)
                x(j) = r.unit();
            VectorXd mu, sg;
            std::tie(mu, sg) = m.query(x);
            out.push_back(mu);
            out.push_back(sg);
            out.push_back(m.mu(x));
            out.push_back(m.sigma(x));
        }
    }
    return out;
}
template <typename M>
static void multi(mon::Rng& r, const char* name)
{
    int d = r.integer(1, 3), o = r.integer(1, 6);
    uint64_t s = r.u64();
    ctl().serial = true;
    auto a = multi_ops<M>(s, d, o);
    ctl().serial = false;
    for (int rep = 0; rep < 2; rep++) {
        ctl().seed = r.u64();
        auto b = multi_ops<M>(s, d, o);
        double worst = a.size() == b.size() ? 0 : 1e300, scale = 1;
        for (size_t i = 0; i < a.size() && i < b.size(); i++) {
            worst = std::max(worst, diff(a[i], b[i]));
            scale = std::max(scale, a[i].cwiseAbs().maxCoeff());
        }
        mon::evaluation();
        mon::event(std::string("parallel run of ") + name);
        mon::check(worst <= 1e-7 * scale, "multi", mon::str(name, " with ", o, " outputs: parallel and serial results differ by ", worst));
    }
}
// ---- sparsification
static void sparse(mon::Rng& r)
{
    int d = r.integer(1, 4);
    cfg().max_points = r.integer(2, 12);
    int n = cfg().max_points + r.integer(1, 15), extra = r.integer(0, 3);
    Vs X, Y;
    for (int i = 0; i < n + extra; i++) {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.unit();
        X.push_back(x);
        Y.push_back(random_obs(r, 1, 1, 0));
    }
    // computing the same reference twice and comparing everything
    Vs first;
    for (int rep = 0; rep < 3; rep++) {
        ctl().serial = rep == 0;
        ctl().seed = r.u64();
        model::SparsifiedGP<P, kernel::MaternFiveHalves<P>, mean::Data<P>> g(d, 1);
        g.compute(Vs(X.begin(), X.begin() + n), Vs(Y.begin(), Y.begin() + n));
        for (int i = n; i < n + extra; i++)
            g.add_sample(X[i], Y[i]);
        if (rep == 0)
            first = g.samples();
        else {
            bool ok = g.samples().size() == first.size();
            for (size_t i = 0; ok && i < first.size(); i++)
                ok = g.samples()[i] == first[i];
            // two mutual nearest neighbours in one dimension are a genuine tie
            mon::evaluation();
            mon::event(d == 1 ? "parallel sparsification, 1-D (ties)" : "parallel sparsification");
            if (d > 1)
                mon::check(ok, "sparse", mon::str("sparsification to ", cfg().max_points, " of ", n, " points in ", d, "-D keeps other points than the serial one"));
            else
                mon::check((int)g.samples().size() == cfg().max_points, "sparse", "wrong number of points kept");
        }
    }
    ctl().serial = false;
}
// ---- one constant model queried by many threads
template <typename M>
static void readers(mon::Rng& r, const char* name, int o)
{
    int d = r.integer(1, 3), n = r.integer(0, 12);
    cfg().max_points = 50;
    M m(d, o);
    Vs X, Y;
    for (int i = 0; i < n; i++) {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.unit();
        X.push_back(x);
        Y.push_back(random_obs(r, o, 1, 0.3));
    }
    if (n)
        m.compute(X, Y);
    const M& c = m;
    int q = r.integer(2, 30);
    Vs Q;
    for (int i = 0; i < q; i++) {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.unit();
        Q.push_back(x);
    }
    auto ask = [&](size_t i) {
        VectorXd v = c.mu(Q[i]);
        auto t = c.query(Q[i]);
        VectorXd s(1);
        s << std::get<0>(t).sum() + c.samples().size() + c.dim_in() + c.dim_out() + (n ? c.max_observation()(0) : 0);
        return s;
    };
    ctl().serial = true;
    std::vector<double> want(q), got(q);
    for (int i = 0; i < q; i++)
        want[i] = ask(i)(0);
    ctl().serial = false;
    tools::par::loop(0, q, [&](size_t i) { got[i] = ask(i)(0); });
    long bad = 0;
    for (int i = 0; i < q; i++)
        bad += !(std::fabs(want[i] - got[i]) <= 1e-9 * (1 + std::fabs(want[i])));
    mon::evaluation(q);
    mon::event(std::string("concurrent queries of ") + name, q);
    mon::check(!bad, "readers", mon::str(name, ": ", bad, " of ", q, " answers differ when asked concurrently"));
}
static void rngs(mon::Rng& r)
{
    int n = r.integer(2, 30), d = r.integer(1, 5);
    std::vector<VectorXd> a(n), b(n);
    std::vector<MatrixXd> l(n);
    tools::par::loop(0, n, [&](size_t i) {
        a[i] = tools::random_vector(d);
        b[i] = tools::random_vector(d, false);
        l[i] = tools::random_lhs(d, 4);
        tools::rgen_int_t g(0, 5);
        g.rand();
    });
    bool ok = true;
    for (int i = 0; i < n; i++) {
        ok = ok && a[i].size() == d && b[i].size() == d && a[i].minCoeff() >= 0 && a[i].maxCoeff() <= 1;
        for (int j = 0; j < i; j++)
            ok = ok && b[i] != b[j];
    }
    mon::event("random vectors drawn concurrently", n);
    mon::check(ok, "rng-concurrent", "random vectors drawn by several threads are out of range or repeated");
}
// ---- Pareto sets
static void pareto_(mon::Rng& r)
{
    typedef std::tuple<int, VectorXd> E;
    int n = r.integer(1, 80), k = r.integer(2, 4);
    std::vector<E> v;
    for (int i = 0; i < n; i++) {
        VectorXd y(k);
        for (int j = 0; j < k; j++)
            y(j) = r.coin() ? r.integer(0, 4) : r.unit() * 4;
        v.push_back(E(i, y));
    }
    std::set<int> want;
    for (int i = 0; i < n; i++) {
        bool dom = false;
        for (int j = 0; j < n && !dom; j++)
            dom = (std::get<1>(v[j]).array() >= std::get<1>(v[i]).array()).all() && (std::get<1>(v[j]).array() > std::get<1>(v[i]).array()).any();
        if (!dom)
            want.insert(i);
    }
    auto p = pareto::pareto_set<1>(v);
    std::set<int> got;
    for (auto& e : p)
        got.insert(std::get<0>(e));
    mon::evaluation();
    mon::event("parallel Pareto set");
    mon::check(got == want && p.size() == want.size(), "pareto", mon::str("the parallel Pareto set of ", n, " points has ", p.size(), " instead of ", want.size(), " elements"));
}
#else
// ---- restarts
struct Obs {
    std::mutex m;
    std::vector<std::pair<VectorXd, double>> res;
};
static Obs& obs()
{
    static Obs o;
    return o;
}
static double peak(const VectorXd& x) { return -(x.array() - 0.37).matrix().squaredNorm() + 0.1 * std::sin(20 * x.sum()); }
template <typename Inner>
struct Rec {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        VectorXd v = Inner()(f, init, bounded);
        std::lock_guard<std::mutex> l(obs().m);
        obs().res.push_back({v, peak(v)});
        return v;
    }
};
template <typename Inner>
static void repeat(mon::Rng& r, const char* name)
{
    int d = r.integer(1, 3);
    R.repeats = r.integer(1, 16);
    R.eps = r.logrange(1e-3, 0.5);
    obs().res.clear();
    VectorXd init(d);
    for (int i = 0; i < d; i++)
        init(i) = r.unit();
    auto f = [](const VectorXd& x, bool g) {
        if (!g)
            return opt::no_grad(peak(x));
        VectorXd gr = -2 * (x.array() - 0.37).matrix() + VectorXd::Constant(x.size(), 2 * std::cos(20 * x.sum()));
        return opt::eval_t{peak(x), gr};
    };
    VectorXd v = opt::ParallelRepeater<P, Rec<Inner>>()(f, init, true);
    double best = -1e300;
    bool is = false;
    for (auto& p : obs().res) {
        best = std::max(best, p.second);
        is = is || p.first == v;
    }
    mon::evaluation();
    mon::event(std::string("parallel restarts of ") + name);
    mon::check((int)obs().res.size() == R.repeats && is && peak(v) == best, "repeater", mon::str(name, ": ", obs().res.size(), " of ", R.repeats, " restarts; returned value ", peak(v), ", best ", best));
}
// ---- whole runs: the acquisition function is evaluated from several threads
struct Fun {
    static size_t dim_in() { return R.dim_in; }
    static size_t dim_out() { return R.dim_out; }
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y(R.dim_out);
        for (int o = 0; o < y.size(); o++)
            y(o) = std::sin(3 * x.sum() + o) + peak(x);
        return y;
    }
};
template <typename Gp, typename A>
static void bo(mon::Rng& r, const char* name)
{
    R.dim_in = r.integer(1, 2);
    R.dim_out = r.integer(1, 2);
    R.iters = r.integer(1, 3);
    R.samples = r.integer(1, 5);
    R.repeats = r.integer(2, 8);
    R.hp = r.pick(std::vector<int>{-1, 1, 2});
    bayes_opt::BOptimizer<P, initfun<init::LHS<P>>, modelfun<Gp>, acquifun<A>, acquiopt<opt::ParallelRepeater<P, opt::GridSearch<P>>>, stopcrit<stop::MaxIterations<P>>> b;
    b.optimize(Fun());
    mon::evaluation();
    mon::event(std::string("whole run with ") + name);
    mon::check((int)b.samples().size() == R.samples + R.iters, "bo-count", mon::str(b.samples().size(), " samples"));
}
// an acquisition function used by many threads gives what one thread gets
template <typename Gp, typename Make>
static void shared_acqui(mon::Rng& r, const char* name, Make make)
{
    int d = r.integer(1, 3), n = r.integer(1, 12);
    Gp g(d, 1);
    Vs X, Y;
    for (int i = 0; i < n; i++) {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.unit();
        X.push_back(x);
        Y.push_back(random_obs(r, 1, 1, r.range(-3, 3)));
    }
    g.compute(X, Y);
    int q = r.integer(2, 40);
    Vs Q;
    for (int i = 0; i < q; i++) {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.unit();
        Q.push_back(x);
    }
    auto one = make(g);
    std::vector<double> want(q), got(q);
    FirstElem af;
    for (int i = 0; i < q; i++)
        want[i] = opt::fun(one(Q[i], af, false));
    auto many = make(g);
    tools::par::loop(0, q, [&](size_t i) { got[i] = opt::fun(many(Q[i], af, false)); });
    long bad = 0;
    for (int i = 0; i < q; i++)
        bad += !(std::fabs(want[i] - got[i]) <= 1e-9 * (1 + std::fabs(want[i])));
    mon::evaluation(q);
    mon::event(std::string("concurrent evaluations of ") + name, q);
    mon::check(!bad, "acqui-concurrent", mon::str(name, ": ", bad, " of ", q, " values differ when evaluated concurrently"));
}
#endif
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([&](long c, mon::Rng& r) {
        kit::random_cfg(r, ref::M52);
        cfg().rprop_iter = 6;
        cfg().noise = r.logrange(1e-2, 0.5);
        cfg().opt_noise = false;
        cfg().se_k = 0;
        ctl().threads = r.integer(2, 8);
        ctl().seed = r.u64();
        ctl().schedule = 0;
#if PART == 2
        switch (c % 3) {
        case 0: ehvi<opt::NLOptNoGrad<P2, nlopt::GN_DIRECT_L>>(r, "NLOpt"); break;
        case 1: ehvi<opt::GridSearch<P2>>(r, "GridSearch"); break;
        default: ehvi<Mine>(r, "a user's optimiser");
        }
#elif PART == 0
        typedef model::GP<P, kernel::MaternFiveHalves<P>, mean::NullFunction<P>, model::gp::KernelLFOpt<P, opt::Rprop<P>>> G1;
        switch (c % 8) {
        case 0: multi<model::MultiGP<P, model::GP, kernel::MaternFiveHalves<P>, mean::Data<P>, model::multi_gp::ParallelLFOpt<P, model::gp::KernelLFOpt<P, opt::Rprop<P>>>>>(r, "MultiGP (likelihood)"); break;
        case 1: multi<model::MultiGP<P, model::SparsifiedGP, kernel::SquaredExpARD<P>, mean::Constant<P>, model::multi_gp::ParallelLFOpt<P, model::gp::KernelLooOpt<P, opt::Rprop<P>>>>>(r, "MultiGP of SparsifiedGP (leave-one-out)"); break;
        case 2:
        case 3: sparse(r); break;
        case 4: rngs(r); break;
        case 5: readers<model::GP<P, kernel::SquaredExpARD<P>, mean::Data<P>>>(r, "GP", r.integer(1, 2)); break;
        case 6: readers<model::SparsifiedGP<P, kernel::MaternFiveHalves<P>, mean::Data<P>>>(r, "SparsifiedGP", 1); break;
        default: pareto_(r);
        }
#else
        typedef model::GP<P, kernel::MaternFiveHalves<P>, mean::Data<P>, model::gp::KernelLFOpt<P, opt::ParallelRepeater<P, opt::Rprop<P>>>> G1;
        switch (c % 9) {
        case 0: repeat<opt::Rprop<P>>(r, "Rprop"); break;
        case 1: repeat<opt::RandomPoint<P>>(r, "RandomPoint"); break;
        case 2: repeat<opt::GridSearch<P>>(r, "GridSearch"); break;
        case 3: bo<G1, acqui::UCB<P, G1>>(r, "UCB"); break;
        case 4: bo<G1, acqui::EI<P, G1>>(r, "EI"); break;
        case 5: bo<G1, acqui::GP_UCB<P, G1>>(r, "GP_UCB"); break;
        case 6: shared_acqui<G1>(r, "EI", [](const G1& g) { return acqui::EI<P, G1>(g, 1); }); break;
        case 7: shared_acqui<G1>(r, "ECI", [](const G1& g) { return experimental::acqui::ECI<P, G1, G1>(g, g, 1); }); break;
        default: shared_acqui<G1>(r, "GP_UCB", [](const G1& g) { return acqui::GP_UCB<P, G1>(g, 1); });
        }
#endif
        mon::distinct(ctl().schedule ^ mon::mix(c));
    });
    mon::event("parallel calls", ctl().calls);
    mon::event("threads spawned", ctl().spawned);
    mon::event("injected delays", ctl().delays);
    mon::sample(mon::str("part ", PART, ": ", (uint64_t)ctl().spawned, " threads in ", (uint64_t)ctl().calls, " parallel calls"));
    return mon::finish();
}
