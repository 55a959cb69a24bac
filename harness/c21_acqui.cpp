// C21: acquisition functions against their documented formulas, evaluated in
// long double from what the model itself answers.
#include "gpkit.hpp"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>

using Eigen::VectorXd;
typedef long double T;
struct Q {
    double alpha = 0.5, jitter = 0, cjitter = 0, nu = 0.05;
};
static Q& q()
{
    static Q x;
    return x;
}
struct PBase {
    struct acqui_ucb {
        static double alpha() { return q().alpha; }
    };
    struct acqui_ei {
        static double jitter() { return q().jitter; }
    };
    struct acqui_eci {
        static double jitter() { return q().cjitter; }
    };
    struct acqui_ucb_imgpo {
        static double nu() { return q().nu; }
    };
};
#define DELTA(N, V)                     \
    struct P##N : PBase {               \
        struct acqui_gpucb {            \
            BO_PARAM(double, delta, V); \
        };                              \
    };
DELTA(0, 0.1)
DELTA(1, 0.01)
DELTA(2, 0.5)
DELTA(3, 0.9)
static const double deltas[4] = {0.1, 0.01, 0.5, 0.9};
struct PDef : PBase {
    struct acqui_gpucb : limbo::defaults::acqui_gpucb {
    };
    struct acqui_ucb : limbo::defaults::acqui_ucb {
    };
    struct acqui_ei : limbo::defaults::acqui_ei {
    };
    struct acqui_eci : limbo::defaults::acqui_eci {
    };
    struct acqui_ucb_imgpo : limbo::defaults::acqui_ucb_imgpo {
    };
};

// a model whose answers the harness decides
struct FM {
    int din = 2, dout = 1;
    std::vector<VectorXd> X;
    double a = 1, b = 0, s0 = 1, s1 = 0;
    int form = 0;
    VectorXd mu(const VectorXd& x) const
    {
        VectorXd m(dout);
        for (int o = 0; o < dout; o++)
            m(o) = a * std::sin(3 * x.sum() + 2 * o + 0.1 * X.size()) + b;
        return m;
    }
    double sigma(const VectorXd& x) const
    {
        if (form == 1)
            return 0;
        if (form == 2 && x.sum() > din / 2.)
            return 0;
        return s0 * (1 + s1 * std::cos(5 * x(0)));
    }
    std::tuple<VectorXd, double> query(const VectorXd& x) const { return std::make_tuple(mu(x), sigma(x)); }
    size_t dim_in() const { return din; }
    size_t dim_out() const { return dout; }
    const std::vector<VectorXd>& samples() const { return X; }
    int nb_samples() const { return X.size(); }
    void grow(mon::Rng& r)
    {
        VectorXd v(din);
        for (int i = 0; i < din; i++)
            v(i) = r.unit();
        X.push_back(v);
    }
    void randomize(mon::Rng& r, int d, int o)
    {
        din = d;
        dout = o;
        X.clear();
        form = r.integer(0, 5);
        a = r.coin(0.2) ? r.logrange(1e-8, 1e6) : r.logrange(0.1, 10);
        b = r.coin(0.2) ? r.range(-1e6, 1e6) : r.range(-5, 5);
        s0 = r.coin(0.3) ? r.logrange(1e-18, 1e4) : r.logrange(1e-3, 10);
        s1 = r.range(0, 0.9);
        if (r.coin(0.2)) // improbable improvements
            s0 = a * a * r.logrange(1e-4, 1e-2);
    }
};
typedef limbo::model::GP<kit::Params, kit::M52, kit::Data> G;
struct RM : G {
    using G::G;
    void grow(mon::Rng& r)
    {
        VectorXd v(dim_in()), y(dim_out());
        for (int i = 0; i < v.size(); i++)
            v(i) = r.unit();
        for (int i = 0; i < y.size(); i++)
            y(i) = std::sin(5 * v.sum() + i) + 0.1 * r.gauss();
        add_sample(v, y);
    }
};

struct Afun {
    int k;
    VectorXd w;
    mutable long calls = 0;
    double operator()(const VectorXd& v) const
    {
        calls++;
        return val(v);
    }
    double val(const VectorXd& v) const
    {
        switch (k) {
        case 0: return v(0);
        case 1: return w.dot(v);
        case 2: return -(v - w).squaredNorm();
        default: return v.minCoeff();
        }
    }
};
static Afun random_afun(mon::Rng& r, int o)
{
    Afun f;
    f.k = r.integer(0, 3);
    f.w = VectorXd(o);
    for (int i = 0; i < o; i++)
        f.w(i) = r.range(-2, 2);
    return f;
}
static T Phi(T z) { return 0.5L * erfcl(-z / sqrtl(2)); }
static T phi(T z) { return expl(-z * z / 2) / sqrtl(2 * 3.14159265358979323846264338327950288L); }
struct Val {
    T v, tol;
};
template <typename M>
Val ei_ref(const M& m, const VectorXd& x, const Afun& f, double jitter, bool& trivial)
{
    VectorXd mu;
    double s2;
    std::tie(mu, s2) = m.query(x);
    T s = sqrtl((T)s2);
    trivial = false;
    if (m.samples().empty() || s < 1e-10L) {
        trivial = true;
        return Val{0, 0};
    }
    T best = -INFINITY;
    for (auto& p : m.samples())
        best = std::max(best, (T)f.val(m.mu(p)));
    T X = (T)f.val(mu) - best - jitter, Z = X / s;
    T dX = 4e-16L * (fabsl(f.val(mu)) + fabsl(best) + fabsl((T)jitter));
    T v = X * Phi(Z) + s * phi(Z);
    // relative error of exp(-Z^2/2) and erfc for perturbed arguments
    T tol = dX * Phi(Z) + (fabsl(X) * Phi(Z) + s * phi(Z)) * (1e-13L + 4e-16L * Z * Z * 8 + (dX / s) * (1 + fabsl(Z)) * 0) + 1e-300L;
    tol += phi(Z) * (dX * (1 + fabsl(Z)) * 2 + 1e-15L * s);
    if (fabsl(Z) > 30)
        tol += 1e-150L * (fabsl(X) + s);
    return Val{v, tol};
}
static std::string where;
static bool eq(double got, const Val& w, const std::string& key, const std::string& what)
{
    mon::evaluation();
    return mon::check(mon::near(got, w.v, w.tol), key, mon::str(what, " = ", got, " but the documented formula gives ", (double)w.v, " (tol ", (double)w.tol, ") ", where));
}
// points: random, at samples, at corners
template <typename M>
VectorXd point(mon::Rng& r, const M& m)
{
    VectorXd x(m.dim_in());
    for (int i = 0; i < x.size(); i++)
        x(i) = r.coin(0.1) ? r.integer(0, 1) : r.unit();
    if (!m.samples().empty() && r.coin(0.2))
        x = m.samples()[r.integer(0, (int)m.samples().size() - 1)];
    return x;
}
static double value(const limbo::opt::eval_t& e, const std::string& name)
{
    mon::check(!std::get<1>(e), name + "-gradient", name + " returned a gradient that was not asked for");
    return limbo::opt::fun(e);
}
template <typename P, typename M>
void gp_ucb(mon::Rng& r, const M& m, const Afun& f, double delta)
{
    int n = r.coin(0.1) ? 0 : r.coin(0.3) ? r.integer(1000, 2000000) : r.integer(1, 60);
    limbo::acqui::GP_UCB<P, M> u(m, n);
    VectorXd x = point(r, m);
    VectorXd mu;
    double s2;
    std::tie(mu, s2) = m.query(x);
    auto beta = [&](T nn) { return sqrtl(2 * logl(powl(nn, (T)m.dim_in() / 2 + 2) * 9.86960440108935861883449099987615114L / (3 * (T)delta))); };
    double got = value(u(x, f, false), "gp_ucb");
    mon::check(u.dim_in() == m.dim_in() && u.dim_out() == m.dim_out(), "gp_ucb-dims", "dim_in/dim_out of GP_UCB are not those of its model");
    T base = f.val(mu);
    if (n == 0) {
        T b1 = beta(1);
        mon::evaluation();
        mon::event("GP_UCB at iteration 0");
        mon::check(std::isfinite(got) && got >= base - 1e-9L * (1 + fabsl(base)) && (std::isnan((double)b1) || got <= base + b1 * sqrtl(s2) + 1e-9L * (1 + fabsl(base) + sqrtl(s2))), "gp_ucb-iteration-0", mon::str("GP_UCB at iteration 0 is ", got, " ", where));
        return;
    }
    T w = beta(n);
    mon::event("GP_UCB");
    eq(got, Val{base + w * sqrtl((T)s2), 1e-13L * (fabsl(base) + w * sqrtl((T)s2)) + 1e-300L}, "gp_ucb", mon::str("GP_UCB(n=", n, ",D=", m.dim_in(), ",delta=", delta, ")"));
}
template <typename M>
void all(mon::Rng& r, M& m, M& cm, int steps)
{
    Q& p = q();
    p.alpha = r.coin(0.1) ? 0 : r.coin(0.2) ? r.range(-2, 0) : r.range(0, 5);
    p.jitter = r.coin(0.4) ? 0 : r.coin(0.3) ? r.range(-1, 0) : r.logrange(1e-3, 2);
    p.cjitter = r.coin(0.4) ? 0 : r.logrange(1e-3, 2);
    p.nu = r.coin(0.3) ? 0.05 : r.logrange(1e-3, 0.5);
    Afun f = random_afun(r, m.dim_out());
    // one object of each lives through the growth of the model
    limbo::acqui::UCB<P0, M> ucb(m, 0);
    limbo::acqui::EI<P0, M> ei(m, 0);
    limbo::experimental::acqui::ECI<P0, M, M> eci(m, cm, 0);
    limbo::acqui::UCB<PDef, M> ducb(m);
    limbo::acqui::EI<PDef, M> dei(m);
    for (int s = 0; s < steps; s++) {
        where = mon::str("[model of ", m.samples().size(), " samples, in=", m.dim_in(), " out=", m.dim_out(), ", aggregator ", f.k, ", constraint model of ", cm.samples().size(), " samples]");
        int nq = r.integer(1, 4);
        for (int k = 0; k < nq; k++) {
            VectorXd x = point(r, m);
            VectorXd mu;
            double s2;
            std::tie(mu, s2) = m.query(x);
            T base = f.val(mu), sd = sqrtl((T)s2);
            mon::Hash h;
            h.addv(x).addd(s2).addd((double)base).add(m.samples().size());
            mon::distinct(h.h);
            eq(value(ucb(x, f, false), "ucb"), Val{base + p.alpha * sd, 1e-14L * (fabsl(base) + fabsl(p.alpha * sd)) + 1e-300L}, "ucb", mon::str("UCB(alpha=", p.alpha, ")"));
            eq(value(ducb(x, f, false), "ucb"), Val{base + 0.5L * sd, 1e-14L * (fabsl(base) + sd) + 1e-300L}, "ucb-default", "UCB with default parameters");
            bool triv;
            Val e = ei_ref(m, x, f, p.jitter, triv);
            double got = value(ei(x, f, false), "ei");
            mon::event(m.samples().empty() ? "EI without data" : triv ? "EI at zero variance" : e.v > 1e-12L ? "EI positive" : "EI vanishing");
            eq(got, e, "ei", mon::str("EI(xi=", p.jitter, ")"));
            mon::check(std::isfinite(got) && got >= -(double)e.tol - 1e-300, "ei-negative", mon::str("EI is ", got, " ", where));
            eq(value(dei(x, f, false), "ei"), ei_ref(m, x, f, 0., triv), "ei-default", "EI with default parameters");
            // constrained expected improvement
            Val c = ei_ref(m, x, f, p.cjitter, triv);
            VectorXd cmu;
            double cs2;
            std::tie(cmu, cs2) = cm.query(x);
            T cs = sqrtl((T)cs2), pf = 1, dpf = 0;
            if (!cm.samples().empty() && cs >= 1e-10L) {
                T z = ((T)f.val(cmu) - 1) / cs;
                pf = Phi(z);
                dpf = phi(z) * 1e-15L * (fabsl((T)f.val(cmu)) + 1) / cs * 4 + pf * (1e-13L + 1e-14L * z * z);
                mon::event("ECI with constraint data");
            }
            else
                mon::event("ECI without constraint information");
            Val w{c.v * pf, c.tol * pf + fabsl(c.v) * dpf + c.tol * dpf + 1e-300L};
            eq(value(eci(x, f, false), "eci"), w, "eci", mon::str("ECI(xi=", p.cjitter, ")"));
            size_t M_ = r.integer(1, 500);
            limbo::acqui::experimental::UCB_IMGPO<P0, M> ui(m, M_);
            T vs = sqrtl(2 * logl(9.86960440108935861883449099987615114L * (T)M_ * (T)M_ / (12 * (T)p.nu)));
            if (std::isfinite((double)vs)) {
                mon::event("UCB_IMGPO");
                eq(ui(x, f), Val{base + (vs + 0.2L) * sd, 1e-13L * (fabsl(base) + (vs + 1) * sd) + 1e-300L}, "ucb_imgpo", mon::str("UCB_IMGPO(nu=", p.nu, ",M=", M_, ")"));
            }
        }
        switch (r.integer(0, 4)) {
        case 0: gp_ucb<P0>(r, m, f, 0.1); break;
        case 1: gp_ucb<P1>(r, m, f, 0.01); break;
        case 2: gp_ucb<P2>(r, m, f, 0.5); break;
        case 3: gp_ucb<P3>(r, m, f, 0.9); break;
        default: gp_ucb<PDef>(r, m, f, 0.1);
        }
        mon::check(ucb.dim_in() == m.dim_in() && ucb.dim_out() == m.dim_out() && ei.dim_in() == m.dim_in() && ei.dim_out() == m.dim_out() && eci.dim_in() == m.dim_in() && eci.dim_out() == m.dim_out(),
            "acqui-dims", "dim_in/dim_out of an acquisition function are not those of its model");
        if (r.coin(0.8)) {
            m.grow(r);
            mon::event("model grown under the same object");
        }
        if (r.coin(0.5))
            cm.grow(r);
    }
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    bool real = mon::S().mode == "real";
    mon::run_cases([&](long, mon::Rng& r) {
        int d = r.integer(1, 6), o = r.coin() ? 1 : r.integer(2, 3), steps = r.integer(1, 8);
        if (real) {
            kit::random_cfg(r, ref::M52);
            RM m(d, o), c(d, o);
            int n0 = r.coin(0.3) ? 0 : r.integer(1, 20);
            for (int i = 0; i < n0; i++) {
                m.grow(r);
                if (r.coin(0.7))
                    c.grow(r);
            }
            all(r, m, c, steps);
        }
        else {
            FM m, c;
            m.randomize(r, d, o);
            c.randomize(r, d, o);
            if (r.coin(0.7)) {
                c.a = r.range(0.1, 2);
                c.b = r.range(-1, 3);
            }
            int n0 = r.coin(0.3) ? 0 : r.integer(1, 10);
            for (int i = 0; i < n0; i++)
                m.grow(r);
            all(r, m, c, steps);
        }
        mon::sample(where);
    });
    return mon::finish();
}
