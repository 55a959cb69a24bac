// C04 (values) / C05 (gradients) of the log-likelihood and of the LOO score,
// asked for after arbitrary histories of model operations
#include "gphist.hpp"
using namespace kit;

// with several outputs: does this model count the complexity term once, or once per output?
static ref::T lik(const ref::GP& g, int times)
{
    return g.loglik() - (times - 1) * (g.logdet() / 2 + (ref::T)g.X.size() / 2 * std::log(2 * 3.14159265358979323846264338327950288L));
}

template <typename M>
void values(M& m, const std::string& what)
{
    auto& g = m.g;
    Tol t = tol(g);
    if (!t.use || g.X.empty()) {
        mon::event("skipped_ill_conditioned");
        return;
    }
    int k = m.r.integer(0, 2);
    if (k != 1) {
        double v = m.gp.compute_log_lik();
        mon::evaluation();
        mon::event("lik_values");
        ref::T e = lik(g, 1), e2 = lik(g, g.dim_out);
        mon::check(mon::near(v, e, t.lik) || mon::near(v, e2, t.lik), "lik:value", mon::str(what, ": compute_log_lik() = ", v, " but the log marginal likelihood is ", (double)e, " (tol ", (double)t.lik, ")"));
        mon::check(m.gp.get_log_lik() == v, "lik:get", what + ": get_log_lik() is not the last computed value");
        m.gp.set_log_lik(-12.5);
        mon::check(m.gp.get_log_lik() == -12.5, "lik:set", what + ": set_log_lik is not read back");
    }
    if (k != 0) {
        double v = m.gp.compute_log_loo_cv();
        mon::evaluation();
        mon::event("loo_values");
        ref::T e = g.loo();
        ref::T tt = t.lik * (2 + (ref::T)g.dim_out);
        // errors in diag(K^-1) are amplified by the residuals
        for (auto& a : g.alpha)
            for (auto x : a)
                tt += 1e-12L * x * x * g.kmax;
        tt += (1e-12L + 200 * g.X.size() * 2.3e-16L * g.cond) * std::fabs(e);
        mon::check(mon::near(v, e, tt), "loo:value", mon::str(what, ": compute_log_loo_cv() = ", v, " but the leave-one-out log probability is ", (double)e, " (tol ", (double)tt, ")"));
        mon::check(m.gp.get_log_loo_cv() == v, "loo:get", what + ": get_log_loo_cv() is not the last computed value");
        if (g.X.size() <= 8 && g.X.size() > 1 && g.cond < 1e6) {
            mon::event("loo_brute");
            ref::T b = g.loo_brute();
            mon::check(mon::near(v, b, tt + 1e-9L * std::fabs(b)), "loo:brute", mon::str(what, ": compute_log_loo_cv() = ", v, " but really leaving each sample out gives ", (double)b));
        }
        m.gp.set_log_loo_cv(3.25);
        mon::check(m.gp.get_log_loo_cv() == 3.25, "loo:set", what + ": set_log_loo_cv is not read back");
    }
}

template <typename M>
void grads(M& m, const std::string& what)
{
    auto& g = m.g;
    Tol t = tol(g);
    if (!t.use || g.X.empty() || g.X.size() > 12) {
        mon::event("skipped_ill_conditioned");
        return;
    }
    ref::T n = g.X.size(), aw = 0, e = 2.3e-16L;
    for (auto& a : g.alpha)
        for (auto x : a)
            aw = std::max(aw, std::fabs(x));
    int which = m.r.integer(0, 2);
    int times = 1;
    {
        // a copy, so that asking does not fill caches of the model under test
        auto c = m.gp;
        double v = c.compute_log_lik();
        if (!mon::near(v, lik(g, 1), t.lik) && mon::near(v, lik(g, g.dim_out), t.lik))
            times = g.dim_out;
    }
    ref::T S = g.dim_out * g.kmax * n * n * aw * aw + n * g.kmax / (g.noise + 1e-8L);
    auto cmp = [&](const VectorXd& gr, const std::function<ref::T(const ref::V&)>& f, const ref::V& p, ref::T S, const std::string& key, const std::string& name) {
        if (!mon::check(gr.size() == (long)p.size(), key + ":size", mon::str(what, ": ", name, " has ", gr.size(), " entries for ", p.size(), " parameters")))
            return;
        for (size_t i = 0; i < p.size(); i++) {
            ref::T d = ref::fd(f, p, i);
            ref::T tt = 1e-8L + 1e-7L * std::fabs(d) + (1e-12L + 60 * n * e * g.cond) * S;
            if (!std::isfinite((double)d) || tt > 1e-2L * std::max((ref::T)1, std::fabs(d))) {
                mon::event("grad_too_loose");
                continue;
            }
            mon::evaluation();
            mon::event("grad_components:" + key);
            if (std::fabs(d) > 10 * tt)
                mon::event("grad_significant:" + key);
            if (!mon::check(mon::near(gr(i), d, tt), key, mon::str(what, ": component ", i, " of ", name, " is ", gr(i), " but the derivative is ", (double)d, " (tol ", (double)tt, ")")))
                return;
        }
    };
    auto apply = [&](ref::GP& q, const ref::V& p) {
        int k = q.kp.size();
        for (int i = 0; i < k; i++)
            q.kp[i] = p[i];
        if (cfg().opt_noise)
            q.noise = std::exp(2 * p[k]);
    };
    ref::V p = g.kp;
    if (cfg().opt_noise)
        p.push_back(std::log(g.noise) / 2);
    if (which == 0)
        cmp(m.gp.compute_kernel_grad_log_lik(), [&](const ref::V& x) { ref::GP q = g; apply(q, x); q.fit(); return lik(q, times); }, p, S, "grad:kernel-lik", "compute_kernel_grad_log_lik()");
    else if (which == 1 && !g.mp.empty()) {
        ref::T ms = 1;
        for (auto& x : g.X)
            for (auto v : g.m(x))
                ms = std::max(ms, std::fabs(v));
        for (auto v : g.mean_obs)
            ms = std::max(ms, std::fabs(v));
        for (auto v : g.mp)
            ms *= (1 + std::fabs(v) / 4);
        cmp(m.gp.compute_mean_grad_log_lik(), [&](const ref::V& x) { ref::GP q = g; q.mp = x; q.fit(); return lik(q, times); }, g.mp, 10 * g.dim_out * n * aw * ms * g.dim_in, "grad:mean-lik", "compute_mean_grad_log_lik()");
    }
    else
        cmp(m.gp.compute_kernel_grad_log_loo_cv(), [&](const ref::V& x) { ref::GP q = g; apply(q, x); q.fit(); return q.loo(); }, p, 4 * S * (1 + aw * aw * g.kmax), "grad:kernel-loo", "compute_kernel_grad_log_loo_cv()");
}

template <typename K, typename Mn>
void one(mon::Rng& r)
{
    bool grad = mon::S().mode == "grad";
    Machine<K, Mn> m(r, grad ? 11 : 20);
    if (r.coin(0.7)) // mostly well-conditioned problems, so that the comparison is sharp
        cfg().noise = r.logrange(1e-2, 0.5), m.g = blank(m.kind, m.mean, m.g.dim_in, m.g.dim_out), m.gp = typename Machine<K, Mn>::GP(m.g.dim_in, m.g.dim_out), m.scale = r.range(0.3, 3), m.off = r.range(-1, 1);
    int steps = r.integer(2, 14);
    for (int s = 0; s < steps; s++) {
        m.step();
        if (r.coin(0.6))
            m.warm();
        if (m.g.X.empty())
            continue;
        mon::event("steps");
        auto nv = mon::S().nviol;
        std::string what = describe(m.g) + " after " + m.hist;
        mon::distinct(mon::Hash().add(hash_of(m.g)).add(mon::hash_str(m.hist)).h);
        if (grad) {
            if (r.coin(0.5))
                grads(m, what);
        }
        else
            values(m, what);
        if (mon::S().nviol != nv)
            return;
        if (s == steps - 1)
            mon::sample(what);
    }
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
#if COMBO == 0
        c % 2 ? one<M52, Data>(r) : one<Exp, ArdUser>(r);
#elif COMBO == 1
        c % 2 ? one<SE, ArdConst>(r) : one<M32, User>(r);
#elif COMBO == 2
        c % 2 ? one<Exp, Const>(r) : one<Lin, ArdData>(r);
#elif COMBO == 3
        c % 2 ? one<SE, Data>(r) : one<M52, ArdNull>(r);
#endif
    });
    return mon::finish();
}
