// C06 kernels / C07 mean functions, called directly
#include "gpkit.hpp"
using namespace kit;

template <typename K>
void kernel(mon::Rng& r)
{
    const int kind = KindOf<K>::v;
    random_cfg(r, kind);
    int d = r.integer(1, 8);
    // any parameters are legal: in some cases far from the usual ranges
    const bool wide = r.coin(0.4);
    if (wide) {
        cfg().noise = r.logrange(1e-12, 1e2);
        cfg().sigma_sq = r.logrange(1e-8, 1e8);
        cfg().l = r.logrange(1e-3, 1e3);
        mon::event("wide_parameters");
    }
    K k(d);
    const Cfg& c = cfg();
    std::string what = mon::str(ref::kname(kind), kind == ref::SE ? mon::str("(k=", c.se_k, ")") : "", " dim ", d);
    std::string key = mon::str("kernel:", ref::kname(kind), ":");
    ref::V p = default_kp(kind, d);
    ref::T noise = c.noise;
    long np = p.size() + (c.opt_noise ? 1 : 0);
    mon::check((long)k.h_params_size() == np && k.h_params().size() == np, key + "h-params-size", mon::str(what, ": h_params_size() ", k.h_params_size(), " h_params().size() ", k.h_params().size(), " for ", np, " parameters"));
    // documented initial values, in log-space
    VectorXd hp = k.h_params();
    for (size_t i = 0; i < p.size(); i++)
        mon::check(mon::rel(hp(i), p[i], 1e-12L), key + "default", mon::str(what, ": initial parameter ", i, " is ", hp(i), " not ", (double)p[i]));
    if (c.opt_noise)
        mon::check(mon::rel(hp(np - 1), std::log((ref::T)c.noise) / 2, 1e-12L), key + "default-noise", mon::str(what, ": initial noise parameter ", hp(np - 1)));
    mon::check(mon::rel(k.noise(), c.noise, 1e-14L, c.noise), key + "default-noise", mon::str(what, ": noise() ", k.noise(), " is not Params::kernel::noise() ", c.noise));
    int rounds = r.integer(1, 4);
    for (int round = 0; round < rounds; round++) {
        if (round || r.coin(0.7)) {
            VectorXd q = random_hp(r, kind, d);
            if (wide) {
                for (size_t i = 0; i < p.size(); i++)
                    if (!(kind == ref::SE && (int)i >= d && i + 1 < p.size()))
                        q(i) = std::log(r.logrange(1e-3, 1e3));
                q(p.size() - 1) = 0.5 * std::log(r.logrange(1e-8, 1e8));
                if (c.opt_noise)
                    q(np - 1) = 0.5 * std::log(r.logrange(1e-12, 1e2));
            }
            k.set_h_params(q);
            for (size_t i = 0; i < p.size(); i++)
                p[i] = q(i);
            if (c.opt_noise)
                noise = std::exp(2 * (ref::T)q(np - 1));
            VectorXd b = k.h_params();
            mon::check(b.size() == np && b == q, key + "round-trip", mon::str(what, ": h_params() is ", mon::vec(b), " after set_h_params(", mon::vec(q), ")"));
            if (r.coin()) { // setting what was read back changes nothing
                K k2(d);
                k2.set_h_params(b);
                k = k2;
            }
        }
        mon::check(mon::rel(k.noise(), noise, 1e-12L, noise), key + "noise", mon::str(what, ": noise() = ", k.noise(), " expected ", (double)noise));
        Vs x = random_points(r, r.integer(2, 7), d);
        int n = x.size();
        mon::distinct(mon::Hash().add(kind).add(c.se_k).add(d).addv(k.h_params()).addv(x[0]).h);
        std::vector<std::vector<double>> K0(n, std::vector<double>(n));
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                double v = k(x[i], x[j]);
                ref::T e = ref::kern(kind, p, c.se_k, ref::tov(x[i]), ref::tov(x[j]));
                ref::T s2 = ref::kern(kind, p, c.se_k, ref::tov(x[i]), ref::tov(x[i])) + ref::kern(kind, p, c.se_k, ref::tov(x[j]), ref::tov(x[j]));
                mon::evaluation();
                if (e > 1e-6L * s2 && i != j)
                    mon::event("correlated_pair");
                // exp(-z/2) amplifies rounding of z
                ref::T z = std::fabs(std::log(std::max((ref::T)1e-300L, std::fabs(e) / s2))) + 1;
                mon::check(mon::near(v, e, 4e-15L * (d + 4) * (c.se_k + 1) * 4 * z * s2 * (kind == ref::LIN ? 10 : std::min((ref::T)1, 20 * std::fabs(e) / s2 + 1e-20L)) + 1e-300L) || mon::near(v, e, 1e-12L * std::fabs(e)), key + "value", mon::str(what, " parameters ", mon::vec(k.h_params()), ": k(", mon::vec(x[i]), ",", mon::vec(x[j]), ") = ", v, " but the documented formula gives ", (double)e));
                mon::check(std::fabs(v - k(x[j], x[i])) <= 1e-14 * std::fabs(v), key + "symmetry", mon::str(what, ": k(a,b) = ", v, " k(b,a) = ", k(x[j], x[i])));
                K0[i][j] = v;
                // noise and jitter exactly when the indices are equal
                double same = k(x[i], x[j], i, i), dif = k(x[i], x[j], i, i + 1), neg = k(x[i], x[j], -1, -2);
                mon::check(std::fabs(same - (v + k.noise() + 1e-8)) <= 1e-13 * (std::fabs(v) + k.noise() + 1e-8), key + "noise-on-diagonal", mon::str(what, ": k with equal indices is ", same, " instead of k + noise + 1e-8 = ", v + k.noise() + 1e-8));
                mon::check(dif == v && neg == v, key + "noise-off-diagonal", mon::str(what, ": k with different indices is ", dif, "/", neg, " instead of ", v));
                // gradient in log-space
                bool ii = r.coin(0.3);
                VectorXd g = ii ? k.grad(x[i], x[j], 3, 3) : (r.coin() ? k.grad(x[i], x[j]) : k.grad(x[i], x[j], i, i + 1));
                if (!mon::check(g.size() == np, key + "grad-size", mon::str(what, ": gradient of size ", g.size(), " for ", np, " parameters")))
                    continue;
                for (size_t q = 0; q < p.size(); q++) {
                    ref::V a = ref::tov(x[i]), b = ref::tov(x[j]);
                    ref::T dd = ref::fd([&](const ref::V& pp) { return ref::kern(kind, pp, c.se_k, a, b); }, p, q);
                    mon::event("gradient_components");
                    if (std::fabs(dd) > 1e-6L * s2)
                        mon::event("gradient_significant");
                    mon::check(mon::near(g(q), dd, 1e-8L * std::fabs(dd) + 1e-10L * s2), key + "gradient", mon::str(what, " parameters ", mon::vec(k.h_params()), ": d k(", mon::vec(x[i]), ",", mon::vec(x[j]), ") / d p", q, " = ", g(q), " but the derivative is ", (double)dd));
                }
                if (c.opt_noise)
                    mon::check(mon::rel(g(np - 1), ii ? 2 * noise : 0, 1e-12L, noise), key + "gradient-noise", mon::str(what, ": derivative for the noise parameter ", g(np - 1), " with ", ii ? "equal" : "different", " indices, noise ", (double)noise));
            }
        // positive semi-definite, and bounded by the diagonal
        double mx = 0;
        for (int i = 0; i < n; i++)
            mx = std::max(mx, K0[i][i]);
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                mon::check(std::fabs(K0[i][j]) <= std::sqrt(K0[i][i] * K0[j][j]) * (1 + 1e-12), key + "cauchy-schwarz", mon::str(what, ": |k(a,b)| = ", K0[i][j], " exceeds sqrt(k(a,a)k(b,b))"));
        for (int t = 0; t < 4; t++) {
            std::vector<double> w(n);
            double s = 0, nn = 0;
            for (auto& q : w)
                q = r.gauss(), nn += q * q;
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    s += w[i] * w[j] * K0[i][j];
            mon::check(s >= -1e-12 * n * mx * nn, key + "psd", mon::str(what, ": a quadratic form of the Gram matrix is ", s));
        }
    }
    mon::sample(what);
}

// what a mean function may see of a model
struct FakeGP {
    VectorXd m;
    VectorXd mean_observation() const { return m; }
};

template <typename Mn>
void meanf(mon::Rng& r)
{
    const int mk = MeanOf<Mn>::v;
    random_cfg(r, 0);
    int o = r.integer(1, 4), d = r.integer(1, 4);
    Mn m(o);
    std::string what = mon::str(ref::mname(mk), " out=", o);
    std::string key = mon::str("mean:", ref::mname(mk), ":");
    ref::V p = default_mp(mk, o);
    mon::check(m.h_params_size() == p.size() && m.h_params().size() == (long)p.size(), key + "h-params-size", mon::str(what, ": h_params_size() ", m.h_params_size(), " / ", m.h_params().size(), " for ", p.size(), " parameters"));
    VectorXd h = m.h_params();
    for (size_t i = 0; i < p.size(); i++)
        mon::check(h(i) == (double)p[i], key + "default", mon::str(what, ": initial parameter ", i, " is ", h(i), " not ", (double)p[i]));
    for (int round = 0; round < 3; round++) {
        if (round && !p.empty()) {
            VectorXd q = random_mp(r, mk, o);
            m.set_h_params(q);
            p = ref::tov(q);
            mon::check(m.h_params() == q, key + "round-trip", mon::str(what, ": h_params() is ", mon::vec(m.h_params()), " after set_h_params(", mon::vec(q), ")"));
            if (r.coin()) {
                Mn m2(o);
                m2.set_h_params(m.h_params());
                m = m2;
            }
        }
        FakeGP gp;
        gp.m = random_obs(r, o, 2, 1);
        VectorXd x(d);
        for (int i = 0; i < d; i++)
            x(i) = r.range(-2, 2);
        mon::distinct(mon::Hash().add(mk).add(o).addv(m.h_params()).addv(x).addv(gp.m).h);
        VectorXd v = m(x, gp);
        ref::V e = ref::mean_at(mk, p, o, ref::tov(gp.m), ref::tov(x));
        mon::evaluation();
        mon::event("mean_values");
        bool ok = v.size() == o;
        for (int i = 0; ok && i < o; i++)
            ok = mon::rel(v(i), e[i], 1e-12L);
        mon::check(ok, key + "value", mon::str(what, " parameters ", mon::vec(m.h_params()), " data mean ", mon::vec(gp.m), ": m(", mon::vec(x), ") = ", mon::vec(v), " expected ", (double)e[0]));
        if (p.empty())
            continue;
        MatrixXd g = m.grad(x, gp);
        if (!mon::check(g.rows() == o && g.cols() == (long)p.size(), key + "grad-size", mon::str(what, ": gradient of size ", g.rows(), "x", g.cols())))
            continue;
        for (int i = 0; i < o; i++)
            for (size_t q = 0; q < p.size(); q++) {
                ref::T dd = ref::fd([&](const ref::V& pp) { return ref::mean_at(mk, pp, o, ref::tov(gp.m), ref::tov(x))[i]; }, p, q);
                mon::event("mean_gradient_components");
                mon::check(mon::near(g(i, q), dd, 1e-9L * (1 + std::fabs(dd))), key + "gradient", mon::str(what, " parameters ", mon::vec(m.h_params()), ": d m", i, "/d p", q, " = ", g(i, q), " but the derivative is ", (double)dd));
            }
    }
    mon::sample(what);
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
#ifdef KERNELS
        switch (c % 4) {
        case 0: return kernel<Exp>(r);
        case 1: return kernel<M32>(r);
        case 2: return kernel<M52>(r);
        default: return c % 8 == 3 && r.coin(0.3) ? kernel<Lin>(r) : kernel<SE>(r);
        }
#else
        switch (c % 8) {
        case 0: return meanf<Data>(r);
        case 1: return meanf<Const>(r);
        case 2: return meanf<Null>(r);
        case 3: return meanf<ArdData>(r);
        case 4: return meanf<ArdConst>(r);
        case 5: return meanf<ArdNull>(r);
        default: return meanf<ArdUser>(r);
        }
#endif
    });
    return mon::finish();
}
