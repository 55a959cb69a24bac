// C33: every component at boundary and random sizes. The sanitizers (or Valgrind)
// are the oracle: invalid accesses, leaks, undefined operations, failed internal
// assertions, and results which depend on uninitialised memory.
#if PART == 1 || PART == 2
#define USE_NLOPT
#endif
#include "gpkit.hpp"
#include <valgrind/memcheck.h>
#include <boost/filesystem.hpp>
#include <limbo/limbo.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/model/gp_parego.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#if PART == 1
#include <limbo/experimental/model/spgp.hpp>
#endif
using namespace kit;
using namespace limbo;
namespace fs = boost::filesystem;

struct Run {
    int dim_in = 1, dim_out = 1, iters = 3, hp = -1, samples = 3, bins = 2, ncon = 1, repeats = 3;
    bool stats = false, bounded = true;
};
static Run R;
struct P : kit::Params {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return R.stats; }
        static bool bounded() { return R.bounded; }
    };
    struct bayes_opt_boptimizer {
        static int hp_period() { return R.hp; }
    };
    struct bayes_opt_cboptimizer {
        static int hp_period() { return R.hp; }
        static bool bounded() { return R.bounded; }
    };
    struct bayes_opt_imgpo {
        static bool hp_opt() { return R.hp > 0; }
    };
    struct model_gp_parego {
        static double rho() { return 0.05; }
    };
    struct stop_maxiterations {
        static int iterations() { return R.iters; }
    };
    struct stop_maxpredictedvalue {
        static double ratio() { return 0.999; }
    };
    struct init_lhs {
        static int samples() { return R.samples; }
    };
    struct init_randomsampling : init_lhs {
    };
    struct init_randomsamplinggrid : init_lhs {
        static int bins() { return R.bins; }
    };
    struct init_gridsampling {
        static int bins() { return R.bins; }
    };
    struct acqui_ucb {
        static double alpha() { return 0.5; }
    };
    struct acqui_gpucb {
        static constexpr double delta() { return 0.1; }
    };
    struct acqui_ei {
        static double jitter() { return 0.; }
    };
    struct acqui_eci : acqui_ei {
    };
    struct acqui_ucb_imgpo {
        static double nu() { return 0.05; }
    };
    struct stat_gp {
        static int bins() { return R.bins; }
    };
    struct opt_gridsearch {
        static int bins() { return R.bins; }
    };
    struct opt_parallelrepeater {
        static int repeats() { return R.repeats; }
        static double epsilon() { return 1e-2; }
    };
    struct opt_adam : defaults::opt_adam {
        static int iterations() { return R.iters; }
    };
    struct opt_gradient_ascent : defaults::opt_gradient_ascent {
        static int iterations() { return R.iters; }
        static double gamma() { return 0.5; }
        static bool nesterov() { return R.bounded; }
    };
#ifdef USE_NLOPT
    struct opt_nloptgrad : defaults::opt_nloptgrad {
        static int iterations() { return 10 + R.iters; }
    };
    struct opt_nloptnograd : defaults::opt_nloptnograd {
        static int iterations() { return 10 + R.iters; }
    };
#endif
#if PART == 1
    struct model_spgp : limbo::defaults::model_spgp {
        static int min_m() { return R.bins; }
    };
#endif
};
// results must be defined
static void def(const void* p, size_t n, const char* what)
{
    if (!n)
        return;
    mon::event("results_checked");
    if (RUNNING_ON_VALGRIND && VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) {
        VALGRIND_MAKE_MEM_DEFINED(p, n);
        mon::violation(std::string("uninitialised:") + what, std::string(what) + " depends on uninitialised memory");
    }
}
static void def(double d, const char* w) { def(&d, sizeof d, w); }
static void def(int d, const char* w) { def(&d, sizeof d, w); }
static void def(const MatrixXd& v, const char* w) { def(v.data(), v.size() * sizeof(double), w); }
static void def(const Vs& v, const char* w)
{
    for (auto& x : v)
        def(x, w);
}
static VectorXd rv(mon::Rng& r, int d)
{
    VectorXd v(d);
    for (int i = 0; i < d; i++)
        v(i) = r.unit();
    return v;
}
static std::string scratch() { return (mon::S().scratch.empty() ? std::string("/tmp/w/mem") : mon::S().scratch) + "/a"; }

template <typename G>
void show(const G& g, mon::Rng& r, int d)
{
    for (int i = 0; i < 2; i++) {
        VectorXd q = i && g.nb_samples() ? VectorXd(g.samples()[0]) : rv(r, d);
        def(g.mu(q), "mu");
        auto s = g.sigma(q);
        def(&s, 0, "");
        def(std::get<0>(g.query(q)), "query mean");
    }
    def(g.dim_in(), "dim_in");
    def(g.dim_out(), "dim_out");
    def(g.nb_samples(), "nb_samples");
    def(g.samples(), "samples");
}
#if PART == 0
template <typename K, typename Mn, typename H>
void gp_case(mon::Rng& r, int kind)
{
    typedef model::GP<P, K, Mn, H> G;
    random_cfg(r, kind);
    cfg().rprop_iter = r.integer(0, 3);
    int d = r.coin(0.4) ? 1 : r.integer(1, 6), o = r.coin(0.5) ? 1 : r.integer(1, 4);
    bool empty = r.coin(0.2);
    G g = empty ? G() : G(d, o);
    if (!empty)
        show(g, r, d);
    std::string h;
    auto pts = [&](int n) { return random_points(r, n, d); };
    auto obs = [&](int n) {
        Vs y;
        for (int i = 0; i < n; i++)
            y.push_back(random_obs(r, o, 1, 0));
        return y;
    };
    int steps = r.integer(1, 8);
    for (int s = 0; s < steps; s++) {
        int k = r.integer(0, 11);
        h += (char)('a' + k);
        bool any = g.nb_samples() > 0;
        if (k == 0) {
            int n = r.coin(0.4) ? 1 : r.integer(1, 9);
            g.compute(pts(n), obs(n), r.coin());
            if (g.matrixL().rows() != n || r.coin(0.3))
                g.recompute(true, true);
        }
        else if (k <= 3)
            g.add_sample(pts(1)[0], obs(1)[0]);
        else if (!any)
            continue;
        else if (k == 4)
            g.recompute(r.coin(), true);
        else if (k == 5) {
            g.kernel_function().set_h_params(random_hp(r, kind, d));
            g.recompute(false);
        }
        else if (k == 6) {
            if (!std::is_same<H, model::gp::NoLFOpt<P>>::value)
                g.optimize_hyperparams();
        }
        else if (k == 7) {
            def(g.compute_log_lik(), "log_lik");
            def(g.compute_log_loo_cv(), "log_loo_cv");
            def(g.get_log_lik(), "get_log_lik");
        }
        else if (k == 8) {
            def(g.compute_kernel_grad_log_lik(), "kernel gradient");
            def(g.compute_kernel_grad_log_loo_cv(), "loo gradient");
        }
        else if (k == 9) {
            if (g.mean_function().h_params_size() > 0)
                def(g.compute_mean_grad_log_lik(), "mean gradient");
            def(g.mean_function().h_params(), "mean parameters");
            def(g.kernel_function().h_params(), "kernel parameters");
        }
        else if (k == 10) {
            fs::remove_all(scratch());
            G l(d, o);
            if (r.coin()) {
                g.save(serialize::TextArchive(scratch()));
                l.load(serialize::TextArchive(scratch()), r.coin());
            }
            else {
                g.template save<serialize::BinaryArchive>(scratch());
                l.template load<serialize::BinaryArchive>(scratch(), r.coin());
            }
            if (r.coin())
                g = l;
            else
                show(l, r, d);
        }
        else {
            G c(g);
            c.add_sample(pts(1)[0], obs(1)[0]);
            G m(std::move(c));
            g = r.coin() ? m : G(g);
        }
        if (g.nb_samples()) {
            show(g, r, d);
            def(g.sigma(rv(r, d)), "sigma");
            def(g.observations_matrix(), "observations");
            def(g.mean_observation(), "mean_observation");
            def(g.max_observation(), "max_observation");
            def(g.matrixL(), "matrixL");
            def(g.alpha(), "alpha");
            def(g.mean_vector(), "mean_vector");
        }
        mon::event(mon::str("op ", (char)('a' + k)));
    }
    mon::distinct(mon::Hash().add(kind).add(d).add(o).add(mon::hash_str(h)).h);
    mon::sample(mon::str("GP in=", d, " out=", o, " operations ", h));
}
static void parts(mon::Rng& r)
{
    switch (r.integer(0, 4)) {
    case 0: return gp_case<SE, ArdUser, model::gp::KernelMeanLFOpt<P>>(r, ref::SE);
    case 1: return gp_case<M52, Data, model::gp::KernelLFOpt<P>>(r, ref::M52);
    case 2: return gp_case<M32, ArdConst, model::gp::MeanLFOpt<P>>(r, ref::M32);
    case 3: return gp_case<Exp, Null, model::gp::KernelLooOpt<P>>(r, ref::EXP);
    default: return gp_case<SE, Const, model::gp::NoLFOpt<P>>(r, ref::SE);
    }
}
#elif PART == 1
template <typename M>
void multi_case(mon::Rng& r, int kind, bool sparse)
{
    random_cfg(r, kind);
    cfg().rprop_iter = r.integer(0, 3);
    cfg().max_points = sparse ? 50 : 0;
    int d = r.coin(0.4) ? 1 : r.integer(1, 6), o = r.coin(0.4) ? 1 : r.integer(1, 4);
    M g = r.coin(0.2) ? M() : M(d, o);
    auto pts = [&](int n) { return random_points(r, n, d); };
    auto obs = [&](int n) {
        Vs y;
        for (int i = 0; i < n; i++)
            y.push_back(random_obs(r, o, 1, 0));
        return y;
    };
    std::string h;
    int steps = r.integer(1, 6);
    for (int s = 0; s < steps; s++) {
        int k = r.integer(0, 6);
        h += (char)('a' + k);
        if (k == 0) {
            int n = r.coin(0.4) ? 1 : r.integer(1, 8);
            g.compute(pts(n), obs(n), true);
        }
        else if (k <= 2)
            g.add_sample(pts(1)[0], obs(1)[0]);
        else if (!g.nb_samples())
            continue;
        else if (k == 3)
            g.recompute(r.coin(), r.coin());
        else if (k == 4)
            g.optimize_hyperparams();
        else if (k == 5) {
            fs::remove_all(scratch());
            g.save(serialize::TextArchive(scratch()));
            M l(d, o);
            l.load(serialize::TextArchive(scratch()), r.coin());
            g = l;
        }
        else {
            M c(g);
            c.add_sample(pts(1)[0], obs(1)[0]);
            g = r.coin() ? c : M(g);
        }
        if (g.nb_samples()) {
            show(g, r, d);
            def(g.sigma(rv(r, d)), "sigma");
            def(g.observations(), "observations");
            def(g.mean_observation(), "mean_observation");
        }
        mon::event(mon::str("multi op ", (char)('a' + k)));
    }
    mon::distinct(mon::Hash().add(77 + sparse).add(d).add(o).add(mon::hash_str(h)).h);
}
static void sparse_case(mon::Rng& r)
{
    typedef model::SparsifiedGP<P, SE, Data, model::gp::KernelLFOpt<P>> G;
    random_cfg(r, ref::SE);
    cfg().max_points = r.integer(1, 8);
    cfg().rprop_iter = 2;
    int d = r.integer(1, 8), o = r.integer(1, 3);
    G g(d, o);
    int n = r.integer(1, 14);
    Vs x = random_points(r, n, d), y;
    for (int i = 0; i < n; i++)
        y.push_back(random_obs(r, o, 1, 0));
    int first = r.integer(0, n);
    if (first)
        g.compute(Vs(x.begin(), x.begin() + first), Vs(y.begin(), y.begin() + first));
    for (int i = first; i < n; i++)
        g.add_sample(x[i], y[i]);
    show(g, r, d);
    def(g.sigma(rv(r, d)), "sigma");
    def(g.observations_matrix(), "observations");
    g.optimize_hyperparams();
    show(g, r, d);
    mon::event("sparsified");
    mon::distinct(mon::Hash().add(99).add(d).add(n).add(first).add(cfg().max_points).h);
}
struct HNone {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& i, bool) const
    {
        auto e = f(i, true);
        def(opt::fun(e), "spgp objective");
        def(opt::grad(e), "spgp gradient");
        return i;
    }
};
static void spgp_case(mon::Rng& r)
{
    typedef limbo::model::SPGP<P, kernel::SquaredExpARD<P>, mean::Data<P>, HNone> G;
    random_cfg(r, ref::SE);
    R.bins = r.integer(1, 6);
    int d = r.integer(1, 5), n = r.integer(2, 15);
    G g(d, 1);
    Vs x = random_points(r, n, d), y;
    for (int i = 0; i < n; i++) {
        x[i] = rv(r, d);
        y.push_back(random_obs(r, 1, 1, 0));
    }
    if (r.coin(0.3)) {
        for (int i = 0; i < n; i++)
            g.add_sample(x[i], y[i]);
    }
    else
        g.compute(x, y);
    if (r.coin())
        g.optimize_hyperparams();
    g.recompute(r.coin());
    def(std::get<0>(g.query(rv(r, d))), "spgp query");
    def(g.mu(rv(r, d).transpose()), "spgp mu");
    def(g.sigma(rv(r, d)), "spgp sigma");
    mon::event("spgp");
    mon::distinct(mon::Hash().add(55).add(d).add(n).add(R.bins).h);
}
static void parego_case(mon::Rng& r)
{
    typedef limbo::experimental::model::GPParego<P, model::GP<P, M52, Data>> G;
    random_cfg(r, ref::M52);
    int d = r.integer(1, 4), o = r.integer(1, 4), n = r.integer(1, 6);
    G g(d, o);
    Vs x = random_points(r, n, d), y;
    for (int i = 0; i < n; i++)
        y.push_back(random_obs(r, o, 1, 0));
    g.compute(x, y);
    g.add_sample(x[0], y[0]);
    def(g.mu(rv(r, d)), "parego mu");
    def(g.sigma(rv(r, d)), "parego sigma");
    mon::event("parego model");
    mon::distinct(mon::Hash().add(56).add(d).add(o).add(n).h);
}
static void parts(mon::Rng& r)
{
    typedef model::multi_gp::ParallelLFOpt<P, model::gp::KernelLFOpt<P>> PO;
    switch (r.integer(0, 4)) {
    case 0: return multi_case<model::MultiGP<P, model::GP, SE, ArdData, PO>>(r, ref::SE, false);
    case 1: return multi_case<model::MultiGP<P, model::SparsifiedGP, M52, Data, PO>>(r, ref::M52, true);
    case 2: return spgp_case(r);
    case 3: return parego_case(r);
    default: return sparse_case(r);
    }
}
#elif PART == 2
struct Obj {
    VectorXd c;
    int shape;
    opt::eval_t operator()(const VectorXd& x, bool g) const
    {
        def(x, "evaluated point");
        double v = shape == 0 ? -(x - c).squaredNorm() : shape == 1 ? x.sum() : shape == 2 ? 0. : std::floor(3 * x.sum());
        if (!g)
            return opt::no_grad(v);
        VectorXd d = shape == 0 ? VectorXd(-2 * (x - c)) : shape == 1 ? VectorXd(VectorXd::Ones(x.size())) : VectorXd(VectorXd::Zero(x.size()));
        return {v, d};
    }
};
template <typename O>
void go(mon::Rng& r, int maxd)
{
    int d = r.coin(0.4) ? 1 : r.integer(1, maxd);
    R.bins = r.integer(1, 4);
    R.iters = r.coin(0.2) ? r.integer(0, 1) : r.integer(1, 12);
    cfg().rprop_iter = R.iters;
    R.repeats = r.integer(1, 4);
    R.bounded = r.coin();
    bool bounded = maxd < 6 || r.coin();
    Obj f{rv(r, d), r.integer(0, 3)};
    O o;
    def(o(f, rv(r, d), bounded), "returned point");
}
static void parts(mon::Rng& r)
{
    using namespace limbo::opt;
    int k = r.integer(0, 18);
    mon::event(mon::str("optimiser/tool ", k));
    mon::distinct(r.u64());
    switch (k) {
    case 0: return go<Rprop<P>>(r, 6);
    case 1: return go<Adam<P>>(r, 6);
    case 2: return go<GradientAscent<P>>(r, 6);
    case 3: return go<GridSearch<P>>(r, 3);
    case 4: return go<RandomPoint<P>>(r, 5);
    case 5: return go<ParallelRepeater<P, Rprop<P>>>(r, 5);
    case 6: return go<Chained<P, RandomPoint<P>, GridSearch<P>, Rprop<P>>>(r, 3);
    case 7: return go<NLOptGrad<P>>(r, 5);
    case 8: return go<NLOptNoGrad<P>>(r, 5);
    case 9: return go<NLOptNoGrad<P, nlopt::LN_COBYLA>>(r, 5);
    case 10: return go<NLOptNoGrad<P, nlopt::GN_DIRECT>>(r, 5);
    case 11: return go<ParallelRepeater<P, Chained<P, RandomPoint<P>, NLOptGrad<P, nlopt::LD_SLSQP>>>>(r, 5);
    case 12: {
        int d = r.integer(1, 5), n = r.integer(1, 5);
        def(tools::random_vector(d), "random_vector");
        def(tools::random_vector(d, false), "random_vector unbounded");
        def(tools::random_lhs(d, n), "random_lhs");
        tools::rgen_int_t gi(-3, r.integer(-3, 5));
        def(gi.rand(), "random integer");
        tools::rgen_double_t gd(0, 1, 5);
        def(gd.rand(), "random double");
        tools::rgen_gauss_t gg(0, 1, 5);
        gg.reset();
        def(gg.rand(), "random gauss");
        return;
    }
    case 13:
    case 14: {
        fs::remove_all(scratch());
        MatrixXd m = MatrixXd::Random(r.integer(1, 5), r.integer(1, 5));
        VectorXd v = VectorXd::Random(r.integer(1, 5));
        Vs l;
        int ln = r.integer(1, 4), ld = r.integer(1, 3);
        for (int i = 0; i < ln; i++)
            l.push_back(VectorXd::Random(ld));
        MatrixXd m2;
        VectorXd v2;
        Vs l2;
        if (k == 13) {
            serialize::TextArchive a(scratch());
            a.save(m, "m");
            a.save(v, "v");
            a.save(l, "l");
            a.load(m2, "m");
            a.load(v2, "v");
            a.load(l2, "l");
        }
        else {
            serialize::BinaryArchive a(scratch());
            a.save(m, "m");
            a.save(v, "v");
            a.save(l, "l");
            a.load(m2, "m");
            a.load(v2, "v");
            a.load(l2, "l");
        }
        def(m2, "loaded matrix");
        def(v2, "loaded vector");
        def(l2, "loaded list");
        mon::check(m2.rows() == m.rows() && m2.cols() == m.cols() && v2.size() == v.size() && l2.size() == l.size(), "archive:shape", "a loaded object has another shape");
        return;
    }
    case 15: {
        int n = r.integer(1, 12), o = r.integer(2, 4);
        std::vector<std::tuple<VectorXd, VectorXd>> p;
        for (int i = 0; i < n; i++) {
            VectorXd y(o);
            for (int j = 0; j < o; j++)
                y(j) = r.integer(0, 3);
            p.push_back(std::make_tuple(rv(r, 2), y));
        }
        auto s = pareto::pareto_set<1>(p);
        for (auto& e : s)
            def(std::get<1>(e), "pareto point");
        return;
    }
    case 16: {
        int d = r.integer(1, 6);
        random_cfg(r, ref::SE);
        SE ks(d);
        M52 k5(d);
        M32 k3(d);
        Exp ke(d);
        VectorXd a = rv(r, d), b = r.coin(0.3) ? a : rv(r, d);
        def(ks(a, b, 0, 0), "kernel");
        def(ks.grad(a, b, 0, 1), "kernel gradient");
        def(k5(a, b), "kernel");
        def(k5.grad(a, b), "kernel gradient");
        def(k3.grad(a, b, 2, 2), "kernel gradient");
        def(ke.grad(a, b, 2, 2), "kernel gradient");
        def(ks.h_params(), "kernel parameters");
        def(ke.noise(), "noise");
        return;
    }
    case 17: {
        std::vector<int> v;
        int n = r.integer(0, 9);
        for (int i = 0; i < n; i++)
            v.push_back(r.integer(0, 5));
        std::vector<int> out(n);
        tools::par::loop(0, n, [&](size_t i) { out[i] = v[i]; });
        tools::par::for_each(v.begin(), v.end(), [](int& i) { i++; });
        tools::par::sort(v.begin(), v.end(), [](int a, int b) { return a < b; });
        tools::par::replicate(n, []() {});
        int m = tools::par::max(-1, n, [&](size_t i) { return v[i]; }, [](int a, int b) { return a > b; });
        def(m, "par::max");
        return;
    }
    default: return go<GridSearch<P>>(r, 2);
    }
}
#else
// ---- whole runs
struct Fun {
    static size_t dim_in() { return R.dim_in; }
    static size_t dim_out() { return R.dim_out; }
    static size_t nb_constraints() { return R.ncon; }
    VectorXd operator()(const VectorXd& x) const
    {
        def(x, "evaluated sample");
        VectorXd y(R.dim_out);
        for (int o = 0; o < y.size(); o++)
            y(o) = std::sin(3 * x.sum() + o) - 0.1 * o;
        return y;
    }
};
struct CFun : Fun {
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y(R.dim_out + R.ncon);
        for (int o = 0; o < y.size(); o++)
            y(o) = std::sin(3 * x.sum() + o) - 0.1 * o;
        return y;
    }
};
struct TickOpt {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& i, bool b) const
    {
        VectorXd best = i;
        double v = opt::fun(f(i, false));
        def(v, "acquisition value");
        for (int k = 0; k < 3; k++) {
            VectorXd c = tools::random_vector(i.size());
            double w = opt::fun(f(c, false));
            def(w, "acquisition value");
            if (w > v) {
                v = w;
                best = c;
            }
        }
        return best;
    }
};
template <typename B>
void run_case(mon::Rng& r, const char* name, int aggregator = 0)
{
    B bo;
    def(bo.current_iteration(), "current_iteration before a run");
    def(bo.total_iterations(), "total_iterations before a run");
    int runs = r.integer(1, 2);
    for (int i = 0; i < runs; i++) {
        bo.optimize(Fun(), FirstElem(), i == 0 || r.coin());
        def(bo.samples(), "samples");
        def(bo.observations(), "observations");
        if (!bo.samples().empty()) {
            def(bo.best_observation(FirstElem()), "best_observation");
            def(bo.best_sample(FirstElem()), "best_sample");
        }
        def(bo.current_iteration(), "current_iteration");
        def(bo.total_iterations(), "total_iterations");
    }
    mon::event(name);
    mon::distinct(mon::Hash().add(mon::hash_str(name)).add(R.dim_in).add(R.dim_out).add(R.iters).add(R.samples).add(R.hp).h);
}
template <typename K, typename H, typename A, typename I, template <typename...> class X>
struct Mk;
static void parts(mon::Rng& r)
{
    R = Run();
    R.dim_in = r.coin(0.4) ? 1 : r.integer(1, 4);
    R.dim_out = r.coin(0.5) ? 1 : r.integer(1, 3);
    R.iters = r.integer(0, 5);
    R.samples = r.coin(0.3) ? r.integer(0, 1) : r.integer(1, 5);
    R.bins = r.integer(1, R.dim_in > 2 ? 1 : 3);
    R.hp = r.coin() ? -1 : r.integer(1, 3);
    R.stats = r.coin(0.6);
    R.bounded = r.coin(0.8);
    random_cfg(r, ref::SE);
    cfg().rprop_iter = 2;
    typedef model::GP<P, SE, Data, model::gp::KernelLFOpt<P>> G;
    typedef model::GP<P, M52, ArdConst, model::gp::KernelMeanLFOpt<P>> G2;
    using bayes_opt::BOptimizer;
    typedef boost::fusion::vector<limbo::stat::ConsoleSummary<P>, limbo::stat::Samples<P>, limbo::stat::Observations<P>, limbo::stat::BestSamples<P>, limbo::stat::BestObservations<P>, limbo::stat::AggregatedObservations<P>, limbo::stat::BestAggregatedObservations<P>, limbo::stat::GPAcquisitions<P>, limbo::stat::GPLikelihood<P>, limbo::stat::GPKernelHParams<P>, limbo::stat::GPMeanHParams<P>, limbo::stat::GPPredictionDifferences<P>, limbo::stat::GP<P>> St;
    // a model needs a sample before it is queried by a data-dependent mean or EI
    int k = r.integer(0, 7);
    if (k == 0 || k == 2 || k == 3 || k == 4)
        R.bounded = true; // these designs are for bounded spaces
    if (k >= 2 && k != 5)
        R.samples = std::max(R.samples, 1);
    switch (k) {
    case 0: return run_case<BOptimizer<P, modelfun<G>, acquifun<acqui::UCB<P, G>>, acquiopt<TickOpt>, initfun<init::GridSampling<P>>, statsfun<St>>>(r, "UCB, grid, all statistics");
    case 1: return run_case<BOptimizer<P, modelfun<G2>, acquifun<acqui::UCB<P, G2>>, acquiopt<TickOpt>, initfun<init::NoInit<P>>, statsfun<boost::fusion::vector<limbo::stat::Samples<P>>>>>(r, "UCB, no initialisation");
    case 2: return run_case<BOptimizer<P, modelfun<G2>, acquifun<acqui::EI<P, G2>>, acquiopt<TickOpt>, initfun<init::LHS<P>>, statsfun<St>, stopcrit<boost::fusion::vector<stop::MaxIterations<P>>>>>(r, "EI, LHS, all statistics");
    case 3: return run_case<BOptimizer<P, modelfun<G>, acquifun<acqui::GP_UCB<P, G>>, acquiopt<opt::GridSearch<P>>, initfun<init::RandomSamplingGrid<P>>, statsfun<boost::fusion::vector<limbo::stat::ConsoleSummary<P>>>>>(r, "GP_UCB, random grid, grid search");
    case 4: {
        typedef stop::MaxPredictedValue<P, opt::RandomPoint<P>> SP;
        return run_case<BOptimizer<P, modelfun<G>, acquifun<acqui::UCB<P, G>>, acquiopt<opt::RandomPoint<P>>, initfun<init::RandomSampling<P>>, statsfun<boost::fusion::vector<limbo::stat::ConsoleSummary<P>>>, stopcrit<boost::fusion::vector<stop::MaxIterations<P>, SP>>>>(r, "UCB, random point, predicted value");
    }
    case 5: {
        R.dim_out = 1;
        R.ncon = r.integer(1, 3);
        R.samples = std::max(R.samples, 1);
        typedef model::GP<P, M52, Const, model::gp::KernelLFOpt<P>> CM;
        limbo::experimental::bayes_opt::CBOptimizer<P, modelfun<G>, limbo::experimental::constraint_modelfun<CM>, acquifun<limbo::experimental::acqui::ECI<P, G, CM>>, acquiopt<TickOpt>, initfun<init::RandomSampling<P>>, statsfun<boost::fusion::vector<limbo::stat::ConsoleSummary<P>>>> bo;
        R.dim_out = 1;
        struct F2 : CFun {
        };
        bo.optimize(F2());
        def(bo.best_observation(FirstElem()), "best_observation");
        def(bo.best_sample(FirstElem()), "best_sample");
        mon::event("constrained");
        mon::distinct(mon::Hash().add(5).add(R.dim_in).add(R.ncon).add(R.iters).add(R.samples).h);
        return;
    }
    case 6: {
        R.iters = std::max(R.iters, 1);
        bayes_opt::experimental::IMGPO<P, modelfun<G>, acquifun<acqui::experimental::UCB_IMGPO<P, G>>, statsfun<boost::fusion::vector<limbo::stat::ConsoleSummary<P>>>> bo;
        bo.optimize(Fun());
        def(bo.samples(), "samples");
        def(bo.best_sample(FirstElem()), "best_sample");
        mon::event("imgpo");
        mon::distinct(mon::Hash().add(6).add(R.dim_in).add(R.iters).h);
        return;
    }
    default: {
        namespace eb = limbo::experimental::bayes_opt;
        eb::Parego<P, eb::parego_modelfun<G>, acquifun<acqui::UCB<P, G>>, acquiopt<TickOpt>, initfun<init::RandomSampling<P>>, statsfun<boost::fusion::vector<limbo::stat::ConsoleSummary<P>>>> bo;
        bo.optimize(Fun());
        def(bo.samples(), "samples");
        def(bo.observations(), "observations");
        mon::event("parego");
        mon::distinct(mon::Hash().add(7).add(R.dim_in).add(R.dim_out).add(R.iters).h);
        return;
    }
    }
}
#endif
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    fs::create_directories(scratch());
    mon::run_cases([](long, mon::Rng& r) {
        parts(r);
        mon::evaluation();
    });
    return mon::finish();
}
