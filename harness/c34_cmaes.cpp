// C34: the CMA-ES wrapper, over a stand-in that records what it is given.
#include "mon.hpp"
#include <mutex>
#include <Eigen/Core>
#include <libcmaes/cmaes.h>
#include <limbo/limbo.hpp>
#include <limbo/opt/cmaes.hpp>
using Eigen::VectorXd;
namespace lc = libcmaes;

static struct Set {
    int restarts, max_fun_evals, max_iters, variant, elitism, lambda;
    bool auto_max_iters, equal_fun_evals, stagnation, fun_compute_initial, handle_uncertainty, verbose, stochastic;
    double fun_tolerance, xrel_tolerance, fun_target, lbound, ubound;
} g;
struct P {
    struct opt_cmaes {
#define G(type, name) \
    static type name() { return g.name; }
        G(int, restarts)
        G(int, max_fun_evals)
        G(int, max_iters)
        G(int, variant)
        G(int, elitism)
        G(int, lambda)
        G(bool, auto_max_iters)
        G(bool, equal_fun_evals)
        G(bool, stagnation)
        G(bool, fun_compute_initial)
        G(bool, handle_uncertainty)
        G(bool, verbose)
        G(bool, stochastic)
        G(double, fun_tolerance)
        G(double, xrel_tolerance)
        G(double, fun_target)
        G(double, lbound)
        G(double, ubound)
    };
    struct bayes_opt_bobase : limbo::defaults::bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
        static bool bounded() { return bo_bounded(); }
        static bool& bo_bounded()
        {
            static bool b = true;
            return b;
        }
    };
    struct bayes_opt_boptimizer : limbo::defaults::bayes_opt_boptimizer {
        static int hp_period() { return period(); }
        static int& period()
        {
            static int p = -1;
            return p;
        }
    };
    struct kernel : limbo::defaults::kernel {
        BO_PARAM(double, noise, 0.01);
    };
    struct kernel_maternfivehalves : limbo::defaults::kernel_maternfivehalves {
    };
    struct acqui_ucb : limbo::defaults::acqui_ucb {
    };
    struct init_randomsampling {
        BO_PARAM(int, samples, 3);
    };
    struct stop_maxiterations {
        BO_PARAM(int, iterations, 4);
    };
};
struct DP { // the settings as limbo ships them
    struct opt_cmaes : limbo::defaults::opt_cmaes {
    };
};
static std::string settings()
{
    return mon::str("restarts ", g.restarts, " max_fun_evals ", g.max_fun_evals, " max_iters ", g.max_iters, " variant ", g.variant, " elitism ", g.elitism, " lambda ", g.lambda, " flags ", g.auto_max_iters, g.equal_fun_evals, g.stagnation, g.fun_compute_initial, g.handle_uncertainty, g.verbose, g.stochastic, " ftol ", g.fun_tolerance, " xtol ", g.xrel_tolerance, " ftarget ", g.fun_target, " [", g.lbound, ",", g.ubound, "]");
}
template <typename Q>
static void judge_settings(const lc::Record& r, bool bounded, const VectorXd& init, const std::string& w)
{
    typedef typename Q::opt_cmaes O;
    int d = init.size();
    mon::check(r.bounded == bounded, "cmaes:bounds", mon::str("a ", bounded ? "bounded" : "free", " problem is handed over as the other kind ", w));
    mon::check(r.dim == d && r.x0.size() == d, "cmaes:dimension", mon::str("dimension ", r.dim, " instead of ", d, " ", w));
    if (r.dim != d || r.x0.size() != d)
        return;
    VectorXd x0 = r.x0;
    if (bounded && r.bounded) {
        mon::check(r.lb.size() == d && r.ub.size() == d && r.lb == VectorXd::Constant(d, O::lbound()) && r.ub == VectorXd::Constant(d, O::ubound()), "cmaes:bounds", mon::str("bounds (", r.lb.transpose(), ") (", r.ub.transpose(), ") ", w));
        x0 = lc::pwqBoundStrategy(r.lb.data(), r.ub.data(), d).to(r.x0);
    }
    mon::check((x0 - init).cwiseAbs().maxCoeff() <= 1e-9 * (1 + init.cwiseAbs().maxCoeff()), "cmaes:initial-point", mon::str("starts at ", x0.transpose(), " instead of ", init.transpose(), " ", w));
    mon::check(r.sigma > 0 && std::isfinite(r.sigma) && (!bounded || r.sigma <= O::ubound() - O::lbound()), "cmaes:step", mon::str("initial step ", r.sigma, " ", w));
    mon::check(r.lambda == O::lambda(), "cmaes:lambda", mon::str("population size ", r.lambda, " instead of ", O::lambda(), " ", w));
    mon::check(r.seed == 0, "cmaes:seed", mon::str("seed ", r.seed, " is fixed ", w));
    auto val = [&](const char* k, double want) {
        auto it = r.set.find(k);
        mon::check(it != r.set.end() && it->second == want, mon::str("cmaes:", k), mon::str(k, " is ", it == r.set.end() ? "not given" : mon::str(it->second), " instead of ", want, " ", w));
    };
    auto crit = [&](const char* n, int k, bool want) {
        auto it = r.crit.find(k);
        mon::check(it != r.crit.end() && it->second == want, mon::str("cmaes:", n), mon::str("stopping criterion ", n, " is ", it == r.crit.end() ? "left as it is" : it->second ? "on" : "off", " ", w));
    };
    val("algo", O::variant());
    val("restarts", O::restarts());
    val("elitism", O::elitism());
    val("max_fevals", O::max_fun_evals() < 0 ? 900. * (d + 3) * (d + 3) : O::max_fun_evals());
    val("max_iter", O::max_iters() < 0 ? 1000000. : O::max_iters());
    crit("MAXFEVALS", lc::MAXFEVALS, true);
    crit("MAXITER", lc::MAXITER, true);
    crit("AUTOMAXITER", lc::AUTOMAXITER, O::auto_max_iters());
    crit("EQUALFUNVALS", lc::EQUALFUNVALS, O::equal_fun_evals());
    crit("STAGNATION", lc::STAGNATION, O::stagnation());
    if (O::fun_tolerance() != 0) { // the documentation and the code differ about exactly zero
        crit("TOLHISTFUN", lc::TOLHISTFUN, O::fun_tolerance() > 0);
        if (O::fun_tolerance() > 0)
            val("ftolerance", O::fun_tolerance());
    }
    crit("FTARGET", lc::FTARGET, O::fun_target() > 0);
    if (O::fun_target() > 0)
        val("ftarget", -O::fun_target()); // of the function CMA-ES minimises
    crit("TOLX", lc::TOLX, O::xrel_tolerance() > 0);
    if (O::xrel_tolerance() > 0)
        val("xtolerance", O::xrel_tolerance());
    val("initial_fvalue", O::fun_compute_initial());
    val("uh", O::handle_uncertainty());
    val("quiet", !O::verbose());
    auto mx = r.set.find("maximize");
    mon::check(mx == r.set.end() || mx->second == 0, "cmaes:sign", "the negated function is maximised " + w);
    mon::event("settings received", 20);
}
// the user's function and what it was called with
struct Call {
    VectorXd x;
    double v;
    bool grad;
};
static std::vector<Call> calls;
static std::mutex lock;
struct Fun {
    int kind;
    VectorXd c;
    double value(const VectorXd& x) const
    {
        switch (kind) {
        case 0: return -(x - c).squaredNorm();
        case 1: return 1e6 + std::sin(7 * x.sum()) + x(0);
        case 2: return -1e-8 * (x - c).lpNorm<1>();
        case 3: return std::floor(4 * x.sum());
        case 4: return 0;
        default: return std::cos(20 * (x - c).norm()) - x.sum();
        }
    }
    limbo::opt::eval_t operator()(const VectorXd& x, bool grad) const
    {
        double v = value(x);
        std::lock_guard<std::mutex> l(lock);
        calls.push_back({x, v, grad});
        return {v, limbo::opt::eval_t::second_type()};
    }
};
static bool same(const VectorXd& a, const VectorXd& b) { return a.size() == b.size() && a == b; }
template <typename Q>
static void judge_run(const lc::Record& r, const Fun& f, bool bounded, const VectorXd& res, const std::string& w)
{
    typedef typename Q::opt_cmaes O;
    // what CMA-ES sees is the user's function, turned round
    mon::check(calls.size() == r.pheno.size(), "cmaes:evaluations", mon::str(calls.size(), " calls for ", r.pheno.size(), " proposals ", w));
    std::vector<bool> taken(calls.size());
    for (size_t i = 0; i < r.pheno.size(); i++) {
        mon::check(r.value[i] == -f.value(r.pheno[i]), "cmaes:sign", mon::str("CMA-ES is given ", r.value[i], " at ", r.pheno[i].transpose(), ", where the function is ", f.value(r.pheno[i]), " ", w));
        bool found = false;
        for (size_t k = 0; k < calls.size() && !found; k++)
            if (!taken[k] && same(calls[k].x, r.pheno[i]))
                found = taken[k] = true;
        mon::check(found, "cmaes:evaluations", mon::str("proposal ", r.pheno[i].transpose(), " was not evaluated ", w));
        mon::event("evaluated points");
    }
    for (auto& c : calls) {
        mon::check(!c.grad, "cmaes:gradient", "a gradient is asked for " + w);
        if (bounded) {
            mon::check(c.x.minCoeff() >= O::lbound() && c.x.maxCoeff() <= O::ubound(), "cmaes:bounds", mon::str("evaluated outside the bounds: ", c.x.transpose(), " ", w));
            mon::event("evaluated points, bounded");
        }
    }
    // the result
    bool mean = O::stochastic() || O::handle_uncertainty();
    lc::pwqBoundStrategy b(r.lb.data(), r.ub.data(), r.lb.size());
    VectorXd geno = mean ? r.mean : r.best, want = bounded ? b.to(geno) : geno;
    mon::check(same(res, want), "cmaes:result", mon::str("returns ", res.transpose(), " instead of the ", mean ? "final mean " : "best point seen ", want.transpose(), " ", w));
    if (!mean && res.size()) {
        double best = -INFINITY;
        for (auto& c : calls)
            best = std::max(best, c.v);
        mon::check(f.value(res) == best, "cmaes:result", mon::str("the result has value ", f.value(res), ", ", best, " was seen ", w));
        mon::event("best returned");
    }
    else
        mon::event("mean returned");
    if (bounded) {
        mon::check(res.minCoeff() >= O::lbound() && res.maxCoeff() <= O::ubound(), "cmaes:bounds", mon::str("returns ", res.transpose(), " outside the bounds ", w));
        if ((geno - want).cwiseAbs().maxCoeff() > 0)
            mon::event("result folded back into the bounds");
    }
    mon::evaluation();
    mon::distinct(mon::Hash().addv(res).addv(r.x0).h);
}
static void draw(mon::Rng& r)
{
    g.restarts = r.integer(0, 9);
    g.max_fun_evals = r.coin(0.4) ? -1 : r.integer(1, 60);
    g.max_iters = r.coin(0.4) ? -1 : r.integer(1, 500);
    g.variant = r.integer(0, 14);
    g.elitism = r.integer(0, 3);
    g.lambda = r.coin() ? -1 : r.integer(2, 12);
    g.auto_max_iters = r.coin();
    g.equal_fun_evals = r.coin();
    g.stagnation = r.coin();
    g.fun_compute_initial = r.coin();
    g.handle_uncertainty = r.coin(0.2);
    g.verbose = r.coin(0.3);
    g.stochastic = r.coin(0.2);
    g.fun_tolerance = r.coin() ? -1 : r.logrange(1e-9, 1);
    g.xrel_tolerance = r.coin() ? -1 : r.coin(0.2) ? 0 : r.logrange(1e-9, 1);
    g.fun_target = r.coin() ? -1 : r.coin(0.2) ? 0 : r.logrange(1e-3, 1e3);
    g.lbound = r.coin() ? 0 : r.range(-10, 0);
    g.ubound = r.coin() ? 1 : g.lbound + r.logrange(0.3, 20);
}
static void stand_in(mon::Rng& r)
{
    lc::Ctl& c = lc::ctl();
    c.runs.clear();
    c.seed = r.u64();
    c.iterations = r.integer(1, 6);
    c.threads = r.coin(0.2) ? r.integer(2, 4) : 1;
    c.spread = r.coin() ? 1 : r.logrange(0.1, 4);
    calls.clear();
}
static void direct(mon::Rng& r)
{
    draw(r);
    limbo::opt::Cmaes<P> opt;
    int reuse = r.integer(1, 3);
    // progress functions
    int n = 0, nu = 0, nb = 0;
    bool pn = r.coin(0.3), pu = r.coin(0.3), pb = r.coin(0.3);
    if (pn)
        opt.set_progress_function([&](const lc::CMASolutions& s) { n += s.fevals() > 0; });
    if (pu)
        opt.set_unbounded_progress_function([&](const lc::CMAParameters<lc::GenoPheno<lc::NoBoundStrategy>>& p, const lc::CMASolutions&) { nu += p.dim() > 0; return 0; });
    if (pb)
        opt.set_bounded_progress_function([&](const lc::CMAParameters<lc::GenoPheno<lc::pwqBoundStrategy>>& p, const lc::CMASolutions&) { nb += p.dim() > 0; return 0; });
    for (int k = 0; k < reuse; k++) {
        if (r.coin(0.3))
            draw(r);
        stand_in(r);
        n = nu = nb = 0;
        bool bounded = r.coin();
        int d = r.integer(1, 7);
        VectorXd init(d), c(d);
        for (int i = 0; i < d; i++) {
            init(i) = bounded ? (r.coin(0.1) ? g.lbound : r.coin(0.1) ? g.ubound : r.range(g.lbound, g.ubound)) : r.range(-30, 30);
            c(i) = bounded ? r.range(g.lbound - 0.3, g.ubound + 0.3) : r.range(-30, 30);
        }
        Fun f{r.integer(0, 5), c};
        std::string w = mon::str("[", bounded ? "bounded" : "free", " init ", init.transpose(), " function ", f.kind, "; ", settings(), "]");
        VectorXd res = opt(f, init, bounded);
        mon::check(lc::ctl().runs.size() == 1, "cmaes:runs", mon::str(lc::ctl().runs.size(), " runs of CMA-ES ", w));
        if (lc::ctl().runs.empty())
            continue;
        const lc::Record& rec = lc::ctl().runs.back();
        judge_settings<P>(rec, bounded, init, w);
        if (rec.dim != d || rec.bounded != bounded)
            continue;
        judge_run<P>(rec, f, bounded, res, w);
        bool own = bounded ? pb : pu;
        mon::check(own ? (bounded ? nb > 0 && nu == 0 : nu > 0 && nb == 0) && n == 0 && rec.progress == 0 : pn ? n > 0 && nu == 0 && nb == 0 && rec.progress == 0 : rec.progress > 0 && n + nu + nb == 0,
            "cmaes:progress", mon::str("progress functions: default ", rec.progress, ", common ", n, ", free ", nu, ", bounded ", nb, " calls with ", pn, pu, pb, " given ", w));
        mon::event(bounded ? "bounded runs" : "free runs");
        if (own || pn)
            mon::event("progress functions");
        if (k)
            mon::event("optimiser used again");
    }
}
static void shipped(mon::Rng& r)
{
    stand_in(r);
    bool bounded = r.coin();
    int d = r.integer(1, 5);
    VectorXd init(d);
    for (int i = 0; i < d; i++)
        init(i) = r.unit();
    Fun f{0, VectorXd::Constant(d, 0.4)};
    std::string w = mon::str("[default settings, init ", init.transpose(), "]");
    VectorXd res = limbo::opt::Cmaes<DP>()(f, init, bounded);
    if (lc::ctl().runs.size() == 1) {
        judge_settings<DP>(lc::ctl().runs[0], bounded, init, w);
        if (lc::ctl().runs[0].bounded == bounded)
            judge_run<DP>(lc::ctl().runs[0], f, bounded, res, w);
        mon::event("default settings");
    }
    else
        mon::violation("cmaes:runs", "not one run of CMA-ES " + w);
}
// in whole runs: the default acquisition maximiser when libcmaes is there
static std::vector<VectorXd> seen;
template <int D>
struct User {
    BO_PARAM(size_t, dim_in, D);
    BO_PARAM(size_t, dim_out, 1);
    VectorXd operator()(const VectorXd& x) const
    {
        seen.push_back(x);
        return limbo::tools::make_vector(-(x - VectorXd::Constant(D, 0.9)).squaredNorm());
    }
};
typedef limbo::model::GP<P, limbo::kernel::MaternFiveHalves<P>, limbo::mean::Data<P>, limbo::model::gp::KernelLFOpt<P, limbo::opt::Cmaes<P>>> HPGP;
template <int D>
static void whole(mon::Rng& r)
{
    draw(r);
    g.lbound = 0;
    g.ubound = 1;
    stand_in(r);
    P::bayes_opt_bobase::bo_bounded() = r.coin(0.8);
    bool hp = r.coin();
    P::bayes_opt_boptimizer::period() = hp ? 2 : -1;
    seen.clear();
    if (hp) {
        limbo::bayes_opt::BOptimizer<P, limbo::modelfun<HPGP>, limbo::acquifun<limbo::acqui::UCB<P, HPGP>>, limbo::acquiopt<limbo::opt::Cmaes<P>>> bo;
        bo.optimize(User<D>());
    }
    else {
        limbo::bayes_opt::BOptimizer<P, limbo::acquiopt<limbo::opt::Cmaes<P>>> bo;
        bo.optimize(User<D>());
    }
    std::string w = mon::str("[run with", hp ? "" : "out", " hyper-parameters; ", settings(), "]");
    size_t acq = 0, hps = 0;
    for (auto& rec : lc::ctl().runs) {
        bool is_hp = !rec.bounded && (int)rec.x0.size() == 2 && hp && D != 2;
        bool a = rec.dim == D && rec.bounded == P::bayes_opt_bobase::bounded();
        if (a && !is_hp) {
            acq++;
            VectorXd geno = g.stochastic || g.handle_uncertainty ? rec.mean : rec.best;
            VectorXd res = rec.bounded ? lc::pwqBoundStrategy(rec.lb.data(), rec.ub.data(), D).to(geno) : geno;
            mon::check(3 + acq <= seen.size() && same(seen[2 + acq], res), "cmaes:bo", mon::str("the evaluated point is not what CMA-ES found ", w));
            if (rec.bounded)
                for (auto& x : rec.pheno)
                    mon::check(x.minCoeff() >= 0 && x.maxCoeff() <= 1, "cmaes:bounds", "the acquisition function is evaluated outside of [0,1] " + w);
        }
        else {
            hps++;
            mon::check(!rec.bounded, "cmaes:bo", "hyper-parameters are optimised within bounds " + w);
        }
    }
    mon::check(acq == 4 && seen.size() == 7 && hps == (hp ? 2 : 0), "cmaes:bo", mon::str(acq, " acquisition and ", hps, " hyper-parameter optimisations, ", seen.size(), " evaluations ", w));
    if (P::bayes_opt_bobase::bounded())
        for (auto& x : seen)
            mon::check(x.minCoeff() >= 0 && x.maxCoeff() <= 1, "cmaes:bounds", mon::str("the user's function is evaluated at ", x.transpose(), " ", w));
    mon::evaluation();
    mon::event("whole runs");
    calls.clear();
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
        direct(r);
        if (c % 8 == 0)
            shipped(r);
        if (c % 8 == 4)
            r.coin() ? whole<1>(r) : whole<3>(r);
    });
    mon::sample(settings());
    return mon::finish();
}
