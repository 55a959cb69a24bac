// C08: hyper-parameter optimisation. The optimiser is either a recorder, which
// sees exactly what the model hands to an optimiser, or the real Rprop.
#include "gpkit.hpp"
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_loo_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/opt/rprop.hpp>
using namespace kit;

struct Seen {
    VectorXd init, ret;
    bool bounded;
    struct E {
        VectorXd x;
        double v;
        VectorXd g;
        bool grad;
        bool present;
    };
    std::vector<E> evals;
};
static std::vector<Seen> seen;
static mon::Rng* rng;
static int n_probe = 4;

template <typename P>
struct Recorder {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        Seen s;
        s.init = init;
        s.bounded = bounded;
        VectorXd x = init;
        for (int i = 0; i < n_probe; i++) {
            Seen::E e;
            e.x = x;
            e.grad = rng->coin(0.6);
            limbo::opt::eval_t r = f(x, e.grad);
            e.v = limbo::opt::fun(r);
            e.present = (bool)std::get<1>(r);
            if (e.present)
                e.g = limbo::opt::grad(r);
            s.evals.push_back(e);
            x = rng->coin(0.2) ? init : VectorXd(init + VectorXd::NullaryExpr(init.size(), [](long) { return 0.5 * rng->gauss(); }));
        }
        // return a point which was not the last one evaluated
        s.ret = init + VectorXd::NullaryExpr(init.size(), [](long) { return 0.4 * rng->gauss(); });
        seen.push_back(s);
        return s.ret;
    }
};
template <typename P>
using Real = limbo::opt::Rprop<P>;

enum Obj { KL, ML, KML, LOO };
struct Ctx {
    Obj obj;
    const char* name;
};

static VectorXd params_of(const ref::GP& g, Obj o)
{
    ref::V p;
    if (o != ML) {
        p = g.kp;
        if (cfg().opt_noise)
            p.push_back(std::log(g.noise) / 2);
    }
    if (o == ML || o == KML)
        p.insert(p.end(), g.mp.begin(), g.mp.end());
    VectorXd v(p.size());
    for (size_t i = 0; i < p.size(); i++)
        v(i) = (double)p[i];
    return v;
}
static void set_params(ref::GP& g, Obj o, const ref::V& p)
{
    size_t k = 0;
    if (o != ML) {
        for (auto& x : g.kp)
            x = p[k++];
        if (cfg().opt_noise)
            g.noise = std::exp(2 * p[k++]);
    }
    if (o == ML || o == KML)
        for (auto& x : g.mp)
            x = p[k++];
}
static ref::T objective(ref::GP g, Obj o, const ref::V& p)
{
    set_params(g, o, p);
    g.fit();
    return o == LOO ? g.loo() : g.loglik();
}

template <typename GPT>
void run(mon::Rng& r, int kind, int mean, Obj obj, const char* name, bool real, bool early)
{
    rng = &r;
    random_cfg(r, kind);
    cfg().noise = r.logrange(5e-3, 0.5);
    int d = r.integer(1, 4), o = obj == LOO || r.coin(0.7) ? 1 : 2;
    cfg().rprop_iter = r.integer(1, 40);
    cfg().rprop_eps = r.coin(0.3) ? 1e-3 : 0.;
    ref::GP g = blank(kind, mean, d, o);
    GPT gp(d, o);
    std::string what = std::string(name) + (real ? "/Rprop " : "/recorder "), key = mon::str("hp:", name, ":");
    int rounds = r.integer(1, 3);
    bool no_kernel = false;
    for (int round = 0; round < rounds; round++) {
        if (round == 0 || r.coin(0.5)) {
            int n = r.integer(2, 12);
            Vs x = random_points(r, n, d), y;
            for (auto& v : x) {
                VectorXd t(o);
                for (int j = 0; j < o; j++)
                    t(j) = std::sin(3 * v.sum() + j) + 0.3 * r.gauss();
                y.push_back(t);
            }
            g.X.clear();
            g.Y.clear();
            for (int i = 0; i < n; i++) {
                g.X.push_back(ref::tov(x[i]));
                g.Y.push_back(ref::tov(y[i]));
            }
            // the kernel may be left for after the optimisation when the kernel parameters are optimised
            no_kernel = obj != ML && r.coin(0.3);
            gp.compute(x, y, !no_kernel);
        }
        else {
            VectorXd x = random_points(r, 1, d)[0], y = random_obs(r, o, 1, 0);
            if (no_kernel)
                continue;
            gp.add_sample(x, y);
            g.X.push_back(ref::tov(x));
            g.Y.push_back(ref::tov(y));
        }
        if (r.coin(0.4) && !no_kernel) {
            VectorXd p = random_hp(r, kind, d);
            gp.kernel_function().set_h_params(p);
            set_kernel(g, p);
            if (cfg().opt_noise)
                g.noise = gp.kernel_function().noise();
            if (!g.mp.empty()) {
                VectorXd q = random_mp(r, mean, o);
                gp.mean_function().set_h_params(q);
                set_mean(g, q);
            }
            gp.recompute(true, true);
            if (r.coin())
                gp.compute_inv_kernel();
        }
        g.fit();
        what = mon::str(name, real ? "/Rprop " : "/recorder ", describe(g), " round ", round);
        mon::distinct(hash_of(g));
        seen.clear();
        VectorXd before_k = gp.kernel_function().h_params(), before_m = gp.mean_function().h_params();
        ref::GP g0 = g;
        gp.optimize_hyperparams();
        no_kernel = false;
        mon::evaluation();
        mon::event(mon::str("optimisations:", name));
        if (!real) {
            if (!mon::check(seen.size() == 1, key + "optimizer-calls", mon::str(what, ": the optimizer was called ", seen.size(), " times")))
                return;
            Seen& s = seen[0];
            VectorXd e = params_of(g0, obj);
            mon::check(!s.bounded, key + "bounded", what + ": log-space parameters optimised with bounds");
            if (!mon::check(s.init.size() == e.size() && (s.init - e).cwiseAbs().maxCoeff() < 1e-12 * (1 + e.cwiseAbs().maxCoeff()), key + "init", mon::str(what, ": the optimisation starts at ", mon::vec(s.init), " instead of the current parameters ", mon::vec(e))))
                return;
            for (auto& ev : s.evals) {
                ref::V p = ref::tov(ev.x);
                ref::T v = objective(g0, obj, p);
                ref::GP gg = g0;
                set_params(gg, obj, p);
                gg.fit();
                Tol t = tol(gg);
                if (!t.use || !std::isfinite((double)v))
                    continue;
                mon::event("objective_values");
                ref::T aw = 0, n = gg.X.size();
                for (auto& a : gg.alpha)
                    for (auto q : a)
                        aw = std::max(aw, std::fabs(q));
                ref::T tl = 4 * t.lik + 1e-11L * aw * aw * gg.kmax;
                if (!mon::check(mon::near(ev.v, v, tl), key + "objective", mon::str(what, ": the objective at ", mon::vec(ev.x), " is ", ev.v, " but the ", obj == LOO ? "leave-one-out score" : "log-likelihood", " there is ", (double)v)))
                    return;
                mon::check(ev.present == ev.grad, key + "grad-request", mon::str(what, ": gradient ", ev.grad ? "" : "not ", "requested, ", ev.present ? "" : "not ", "given"));
                if (ev.present && ev.grad) {
                    if (!mon::check(ev.g.size() == ev.x.size(), key + "gradient", what + ": gradient of another size"))
                        return;
                    ref::T S = (gg.dim_out * gg.kmax * n * n * aw * aw + n * gg.kmax / (gg.noise + 1e-8L)) * (obj == LOO ? 4 * (1 + aw * aw * gg.kmax) : 1) + 100 * n * aw;
                    for (size_t i = 0; i < p.size(); i++) {
                        ref::T dd = ref::fd([&](const ref::V& q) { return objective(g0, obj, q); }, p, i);
                        ref::T tt = 1e-8L + 1e-7L * std::fabs(dd) + (1e-12L + 60 * n * 2.3e-16L * gg.cond) * S;
                        if (!std::isfinite((double)dd) || tt > 1e-2L * std::max((ref::T)1, std::fabs(dd)))
                            continue;
                        mon::event("objective_gradients");
                        if (!mon::check(mon::near(ev.g(i), dd, tt), key + "gradient", mon::str(what, ": d objective/d p", i, " at ", mon::vec(ev.x), " is ", ev.g(i), " but the derivative is ", (double)dd)))
                            return;
                    }
                }
            }
            // what the optimiser returned is what the model now uses
            set_params(g, obj, ref::tov(s.ret));
        }
        else {
            VectorXd k = gp.kernel_function().h_params(), m = gp.mean_function().h_params();
            if (obj != ML)
                set_kernel(g, k);
            if (obj == ML || obj == KML)
                set_mean(g, m);
        }
        VectorXd ak = gp.kernel_function().h_params(), am = gp.mean_function().h_params();
        VectorXd want = params_of(g, obj);
        VectorXd have(want.size());
        if (obj == KL || obj == LOO)
            have = ak;
        else if (obj == ML)
            have = am;
        else
            have << ak, am;
        mon::check(have.size() == want.size() && (have - want).cwiseAbs().maxCoeff() < 1e-12 * (1 + want.cwiseAbs().maxCoeff()), key + "result-used", mon::str(what, ": parameters after the optimisation ", mon::vec(have), " are not what the optimizer returned ", mon::vec(want)));
        if (obj == KL || obj == LOO)
            mon::check(am == before_m, key + "other-params", what + ": mean parameters changed by a kernel optimisation");
        if (obj == ML)
            mon::check(ak == before_k, key + "other-params", what + ": kernel parameters changed by a mean optimisation");
        g.fit();
        Tol t = tol(g);
        if (real) {
            ref::T a = obj == LOO ? g0.loo() : g0.loglik(), b = obj == LOO ? g.loo() : g.loglik();
            ref::T tl = 1e-9L * (1 + std::fabs(a)) + tol(g0).lik * 4 + t.lik * 4;
            if (g0.ok && g.ok && t.use && tol(g0).use) {
                mon::event("rprop_runs");
                if (b > a + 1e-6L)
                    mon::event("rprop_improved");
                mon::check(b >= a - tl, key + "got-worse", mon::str(what, ": the score went from ", (double)a, " to ", (double)b));
            }
        }
        if (t.use) {
            double v = obj == LOO ? gp.get_log_loo_cv() : gp.get_log_lik();
            ref::T e = obj == LOO ? g.loo() : g.loglik();
            ref::T aw = 0;
            for (auto& al : g.alpha)
                for (auto q : al)
                    aw = std::max(aw, std::fabs(q));
            mon::check(mon::near(v, e, 4 * t.lik + 1e-11L * aw * aw * g.kmax), key + "stored-score", mon::str(what, ": the model stores the score ", v, " but it is ", (double)e, " for the chosen parameters"));
        }
        auto nv = mon::S().nviol;
        Probe<GPT>::agree(gp, g, r, key + "model", what + ": after the optimisation", 3);
        // a kernel or mean gradient asked for next must not use anything older
        if (nv == mon::S().nviol && t.use && g.X.size() <= 10) {
            auto c = gp;
            double l = c.compute_log_lik();
            mon::check(mon::near(l, g.loglik(), 4 * t.lik), key + "recomputed-lik", mon::str(what, ": compute_log_lik() = ", l, " after the optimisation, expected ", (double)g.loglik()));
            double q = c.compute_log_loo_cv();
            ref::T aw = 0;
            for (auto& al : g.alpha)
                for (auto z : al)
                    aw = std::max(aw, std::fabs(z));
            if (g.dim_out == 1)
                mon::check(mon::near(q, g.loo(), 6 * t.lik + 1e-10L * aw * aw * g.kmax + 1e-8L * std::fabs(g.loo())), key + "recomputed-loo", mon::str(what, ": compute_log_loo_cv() = ", q, " after the optimisation, expected ", (double)g.loo()));
        }
        if (nv != mon::S().nviol)
            return;
    }
    mon::sample(what);
}

template <template <typename> class Opt, typename K, typename Mn>
void all(mon::Rng& r, int which, bool real)
{
    using namespace limbo::model::gp;
    int k = KindOf<K>::v, m = MeanOf<Mn>::v;
#if PART == 0
    if (which % 2)
        return run<limbo::model::GP<Params, K, Mn, KernelLFOpt<Params, Opt<Params>>>>(r, k, m, KL, "KernelLFOpt", real, false);
    return run<limbo::model::GP<Params, K, Mn, KernelLooOpt<Params, Opt<Params>>>>(r, k, m, LOO, "KernelLooOpt", real, false);
#else
    if (which % 2)
        return run<limbo::model::GP<Params, K, Mn, MeanLFOpt<Params, Opt<Params>>>>(r, k, m, ML, "MeanLFOpt", real, false);
    return run<limbo::model::GP<Params, K, Mn, KernelMeanLFOpt<Params, Opt<Params>>>>(r, k, m, KML, "KernelMeanLFOpt", real, false);
#endif
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
#ifdef REAL
        const bool real = true;
#define ALL(K, M) all<Real, K, M>(r, c / 3, real)
#else
        const bool real = false;
#define ALL(K, M) all<Recorder, K, M>(r, c / 3, real)
#endif
#if PART == 0
        if (c % 3 == 0)
            return ALL(M52, Data);
        if (c % 3 == 1)
            return ALL(Exp, User);
        return ALL(SE, Data);
#else
        if (c % 3 == 0)
            return ALL(M32, Const);
        return ALL(SE, ArdUser);
#endif
    });
    return mon::finish();
}
