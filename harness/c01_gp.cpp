// C01 / C02 / C03: what a GP predicts
#include "gphist.hpp"
using namespace kit;

template <typename K, typename Mn>
void echo(Machine<K, Mn>& m, const std::string& key, const std::string& what)
{
    auto& gp = m.gp;
    auto& g = m.g;
    bool ok = gp.nb_samples() == (int)g.X.size() && gp.dim_in() == g.dim_in && gp.dim_out() == g.dim_out
        && gp.samples().size() == g.X.size() && gp.observations().size() == g.X.size();
    if (!mon::check(ok, key + ":size", mon::str(what, ": nb_samples ", gp.nb_samples(), " dims ", gp.dim_in(), "x", gp.dim_out(), " for ", g.X.size(), " samples of ", g.dim_in, "x", g.dim_out)))
        return;
    auto xs = gp.samples();
    auto ys = gp.observations();
    for (size_t i = 0; i < g.X.size(); i++) {
        for (int j = 0; j < g.dim_in; j++)
            ok = ok && xs[i](j) == (double)g.X[i][j];
        for (int j = 0; j < g.dim_out; j++)
            ok = ok && ys[i](j) == (double)g.Y[i][j] && (gp.observations_matrix().rows() == (int)g.X.size()) && gp.observations_matrix()(i, j) == (double)g.Y[i][j];
    }
    mon::check(ok, key + ":data", what + ": the model does not hold the samples/observations it was given, in order");
    if (g.X.empty())
        return;
    VectorXd mo = gp.mean_observation();
    double ymax = -1e300;
    for (int o = 0; o < g.dim_out; o++)
        ok = ok && mon::rel(mo(o), g.mean_obs[o], 1e-10L, 1e-3L * (1 + std::fabs((double)g.Y[0][o])));
    for (auto& y : g.Y)
        ymax = std::max(ymax, (double)y[0]);
    mon::check(ok, key + ":mean-observation", mon::str(what, ": mean_observation ", mon::vec(mo), " reference ", (double)g.mean_obs[0]));
    if (g.dim_out == 1)
        mon::check(gp.max_observation()(0) == ymax, key + ":max-observation", mon::str(what, ": max_observation ", gp.max_observation()(0), " but the largest is ", ymax));
    // the mean vector / centred observations it reports
    ok = gp.mean_vector().rows() == (long)g.X.size() && gp.obs_mean().rows() == (long)g.X.size();
    for (size_t i = 0; ok && i < g.X.size(); i++) {
        ref::V mi = g.m(g.X[i]);
        for (int o = 0; o < g.dim_out; o++) {
            ok = ok && mon::rel(gp.mean_vector()(i, o), mi[o], 1e-9L, 1 + std::fabs((double)g.Y[i][o]));
            ok = ok && mon::rel(gp.obs_mean()(i, o), g.R[o][i], 1e-9L, 1 + std::fabs((double)g.Y[i][o]) + std::fabs(mi[o]));
        }
    }
    mon::check(ok, key + ":mean-vector", what + ": mean_vector/obs_mean are not the prior mean and the residuals at the samples");
}

template <typename K, typename Mn>
void batch(mon::Rng& r)
{
    Machine<K, Mn> m(r, 40);
    auto& g = m.g;
    bool empty = r.coin(0.12);
    if (empty) {
        // before any data: the prior
        m.gp = typename Machine<K, Mn>::GP(g.dim_in, g.dim_out);
        g = blank(m.kind, m.mean, g.dim_in, g.dim_out);
        if (r.coin()) {
            m.set_kernel_hp();
            m.set_mean_hp();
        }
        g.fit();
        mon::event("prior");
    }
    else {
        if (r.coin(0.6)) {
            m.set_kernel_hp();
            m.set_mean_hp();
        }
        int n = r.coin(0.3) ? r.integer(1, 3) : r.integer(4, 34);
        m.do_compute(n);
        g.fit();
        mon::event("posterior");
    }
    std::string what = describe(g);
    mon::distinct(hash_of(g));
    mon::sample(what + " " + m.hist);
    Probe<typename Machine<K, Mn>::GP>::agree(m.gp, g, r, std::string("posterior:") + ref::kname(m.kind) + "/" + ref::mname(m.mean), what, empty ? 4 : 8);
    echo(m, "state", what);
}

template <typename K, typename Mn>
void history(mon::Rng& r)
{
    Machine<K, Mn> m(r, 24);
    int steps = r.integer(4, mon::S().thorough ? 40 : 22);
    for (int s = 0; s < steps; s++) {
        m.step();
        if (r.coin(0.5))
            m.warm();
        mon::event("steps");
        mon::distinct(mon::Hash().add(hash_of(m.g)).add(mon::hash_str(m.hist)).h);
        std::string what = describe(m.g) + " after " + m.hist;
        auto nv = mon::S().nviol;
        std::string last = m.hist;
        while (!last.empty() && last.back() == ' ')
            last.pop_back();
        last = last.substr(last.rfind(' ') == std::string::npos ? 0 : last.rfind(' ') + 1);
        last = last.substr(0, last.find('('));
        Probe<typename Machine<K, Mn>::GP>::agree(m.gp, m.g, r, "history", what, 2);
        echo(m, "history-state", what);
        if (s % 4 == 3)
            for (auto& o : m.old)
                Probe<typename Machine<K, Mn>::GP>::agree(*o.first, o.second, r, "copy-independent", "a copy taken earlier; now " + what, 1);
        if (mon::S().nviol != nv)
            return;
        if (s == steps - 1)
            mon::sample(what);
    }
}

// C03: bounds, monotonicity and invariances which need no reference (large n, noise 0, any scale)
template <typename K, typename Mn>
void variance(mon::Rng& r)
{
    Machine<K, Mn> m(r, 90);
    auto& g = m.g;
    cfg().noise = r.coin(0.25) ? 0. : r.coin() ? r.logrange(1e-9, 1e-4) : cfg().noise;
    // many close samples, no noise, a large scale: the posterior variance is below its own rounding
    const bool dense = m.kind != ref::LIN && r.coin(0.25);
    if (dense) {
        cfg().noise = r.coin(0.9) ? 0. : 1e-12;
        cfg().opt_noise = false;
        cfg().se_k = 0;
        cfg().sigma_sq = r.logrange(1e4, 1e8);
        cfg().l = r.logrange(1, 4);
        mon::event("dense_model");
    }
    g = blank(m.kind, m.mean, g.dim_in, g.dim_out);
    typedef typename Machine<K, Mn>::GP GP;
    GP gp(g.dim_in, g.dim_out);
    if (!dense && r.coin()) {
        VectorXd p = random_hp(r, m.kind, g.dim_in);
        gp.kernel_function().set_h_params(p);
    }
    double noise = gp.kernel_function().noise();
    int n = dense ? r.integer(60, 120) : r.integer(1, mon::S().thorough ? 120 : 60);
    Vs x, y;
    m.gen(n, x, y);
    double w = 0;
    if (dense && r.coin(0.8)) {
        w = r.logrange(0.02, 0.5);
        for (auto& v : x)
            for (long j = 0; j < v.size(); j++)
                v(j) = 0.5 + w * r.gauss();
    }
    std::vector<VectorXd> qs;
    for (int i = 0; i < 6; i++)
        qs.push_back(random_query(r, x, g.dim_in));
    if (w > 0)
        for (auto& q : qs)
            for (long j = 0; j < q.size(); j++)
                q(j) = 0.5 + w * r.gauss();
    std::vector<double> prev(qs.size(), 1e300);
    std::string what = mon::str(ref::kname(m.kind), "/", ref::mname(m.mean), " in=", g.dim_in, " noise=", noise, " n=");
    double kmax = 0;
    bool incremental = r.coin(dense ? 0.3 : 0.7);
    auto bounds = [&](const GP& q, int k) {
        for (size_t i = 0; i < qs.size(); i++) {
            const auto& f = q.kernel_function();
            double prior = f(qs[i], qs[i]), s = q.sigma(qs[i]), s2 = std::get<1>(q.query(qs[i]));
            VectorXd mu = q.mu(qs[i]);
            mon::evaluation();
            bool fin = std::isfinite(s) && std::isfinite(s2);
            for (int o = 0; o < mu.size(); o++)
                fin = fin && std::isfinite(mu(o));
            if (!fin && dense && 1e-8 + noise < 30. * k * 2.3e-16 * prior) { // no Cholesky factor in double precision
                mon::event("numerically_singular");
                return;
            }
            if (!mon::check(fin, "variance:not-finite", mon::str(what, k, ": mu ", mon::vec(mu), " sigma ", s, " at ", mon::vec(qs[i]))))
                return;
            mon::check(s >= noise && s2 >= noise, "variance:below-noise", mon::str(what, k, ": sigma ", s, "/", s2, " at ", mon::vec(qs[i]), " is below the noise"));
            mon::check(s <= (prior + noise) * (1 + 1e-12) && s2 <= (prior + noise) * (1 + 1e-12), "variance:above-prior", mon::str(what, k, ": sigma ", s, "/", s2, " exceeds prior variance + noise ", prior + noise));
            kmax = std::max(kmax, prior);
            for (auto& xi : x)
                kmax = std::max(kmax, f(xi, xi));
            // rounding of the posterior variance; cond <= n kmax / jitter
            double tol = 2e-9 * kmax + 60. * (k + 1) * 2.3e-16 * kmax * std::min(1e7, (k + 1) * kmax / (noise + 1e-8));
            mon::check(s <= prev[i] + tol, "variance:increased", mon::str(what, k, ": one more sample raised sigma at ", mon::vec(qs[i]), " from ", prev[i], " to ", s, " (tol ", tol, ")"));
            if (s < prev[i] - tol)
                mon::event("variance_shrank");
            prev[i] = s;
            if (s == noise && k)
                mon::event("variance_at_the_floor");
        }
    };
    bounds(gp, 0);
    if (incremental) {
        int chunk = std::max(1, n / 12);
        for (int i = 0; i < n; i++) {
            gp.add_sample(x[i], y[i]);
            if (i % chunk == chunk - 1 || i < 3 || i == n - 1)
                bounds(gp, i + 1);
        }
    }
    else {
        gp.compute(x, y);
        bounds(gp, n);
    }
    mon::distinct(mon::Hash().add(m.kind).add(m.mean).add(n).addv(x[0]).addv(y[0]).h);
    // the variance does not depend on the observations; neither does it on the order of the samples
    double cond = n * kmax / (noise + 1e-8);
    if (!dense && cond < 1e7) {
        double rel = 1e-10 + 60. * n * 2.3e-16 * cond;
        GP a = gp;
        Vs y2;
        double k = r.range(-3, 3), b = r.range(-5, 5);
        for (auto& v : y)
            y2.push_back(k * v + VectorXd::Constant(v.size(), b));
        a.compute(x, y2);
        Vs xp = x, yp = y;
        for (int i = n - 1; i > 0; i--) {
            int j = r.integer(0, i);
            std::swap(xp[i], xp[j]);
            std::swap(yp[i], yp[j]);
        }
        GP c = gp;
        c.compute(xp, yp);
        double ys = 1e-3;
        for (auto& v : y)
            ys = std::max(ys, v.cwiseAbs().maxCoeff());
        double as = gp.alpha().cwiseAbs().maxCoeff();
        for (auto& q : qs) {
            if (m.kind == ref::LIN && gp.kernel_function()(q, q) > 1.01 * kmax)
                continue;
            mon::event("metamorphic");
            double tm = rel * ys + 100. * n * n * 2.3e-16 * as * kmax + 1e-9;
            mon::check(std::fabs(a.sigma(q) - gp.sigma(q)) <= rel * kmax + 1e-11, "variance:depends-on-observations", mon::str(what, n, ": sigma changed from ", gp.sigma(q), " to ", a.sigma(q), " when only the observations changed"));
            mon::check(std::fabs(c.sigma(q) - gp.sigma(q)) <= rel * kmax + 1e-11, "variance:depends-on-order", mon::str(what, n, ": sigma ", gp.sigma(q), " became ", c.sigma(q), " after permuting the samples"));
            VectorXd m0 = gp.mu(q), m1 = c.mu(q);
            mon::check((m0 - m1).cwiseAbs().maxCoeff() <= tm, "mean:depends-on-order", mon::str(what, n, ": mu ", mon::vec(m0), " became ", mon::vec(m1), " after permuting the samples (tol ", tm, ")"));
            if (m.mean == ref::DATA) {
                VectorXd m2 = a.mu(q);
                VectorXd e = k * m0 + VectorXd::Constant(m0.size(), b);
                mon::check((m2 - e).cwiseAbs().maxCoeff() <= 5 * tm + 1e-9, "mean:not-affine", mon::str(what, n, ": observations mapped by ", k, "*y+", b, " but mu went from ", mon::vec(m0), " to ", mon::vec(m2)));
            }
        }
    }
}

template <typename K, typename Mn>
void one(mon::Rng& r)
{
    if (mon::S().mode == "batch")
        batch<K, Mn>(r);
    else if (mon::S().mode == "history")
        history<K, Mn>(r);
    else
        variance<K, Mn>(r);
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
#if COMBO == 0
        c % 2 ? one<M52, Data>(r) : one<Exp, ArdUser>(r);
#elif COMBO == 1
        c % 2 ? one<SE, Data>(r) : one<M32, User>(r);
#elif COMBO == 2
        c % 2 ? one<Exp, Const>(r) : one<Lin, Data>(r);
#elif COMBO == 3
        c % 2 ? one<SE, ArdConst>(r) : one<M52, Null>(r);
#elif COMBO == 4
        c % 2 ? one<M32, ArdData>(r) : one<SE, User>(r);
#elif COMBO == 5
        c % 2 ? one<Lin, Const>(r) : one<Exp, ArdNull>(r);
#endif
    });
    return mon::finish();
}
