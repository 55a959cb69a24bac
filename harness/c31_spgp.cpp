// C31: the sparse pseudo-input GP against a dense evaluation of the same approximation
#ifndef USE_NLOPT
#define USE_NLOPT
#endif
#include "gpkit.hpp"
#include <limbo/experimental/model/spgp.hpp>
using namespace kit;
using ref::T;

struct SCfg {
    double percent = 10, jitter = 1e-6, sig = 0.01, c = 0.5, l = 0.5;
    int min_m = 1;
};
static SCfg& sc()
{
    static SCfg s;
    return s;
}
struct SP : public kit::Params {
    struct model_spgp {
        static double jitter() { return sc().jitter; }
        static double samples_percent() { return sc().percent; }
        static int min_m() { return sc().min_m; }
        static double sig() { return sc().sig; }
        static double pred_kernel_sigma_sq() { return sc().c; }
        static double pred_kernel_l() { return sc().l; }
    };
    struct opt_nloptgrad {
        static int iterations() { return 30; }
        static double fun_tolerance() { return 1e-3; }
        static double xrel_tolerance() { return 1e-3; }
    };
};
// the hyper-parameter optimiser of the harness: decides where to evaluate and what to return
typedef std::function<limbo::opt::eval_t(const VectorXd&, bool)> Obj;
static std::function<VectorXd(const Obj&, const VectorXd&, bool)>& plan()
{
    static std::function<VectorXd(const Obj&, const VectorXd&, bool)> f;
    return f;
}
struct HOpt {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        return plan()([&](const VectorXd& x, bool g) { return f(x, g); }, init, bounded);
    }
};
struct Dense {
    ref::M X, B; // data, pseudo-inputs
    ref::V y, b; // residuals, inverse squared length scales
    T c, sig, jit;
    ref::M LM, L; // chol of Kmm + jitter, of the n x n covariance
    ref::M Qmn; // LM^-1 Kmn (columns)
    ref::V al;
    bool ok;
    T cond;
    T k(const ref::V& p, const ref::V& q) const
    {
        T s = 0;
        for (size_t j = 0; j < p.size(); j++)
            s += b[j] * (p[j] - q[j]) * (p[j] - q[j]);
        return c * std::exp(-s / 2);
    }
    void build()
    {
        size_t m = B.size(), n = X.size();
        ref::M K(m, ref::V(m));
        for (size_t i = 0; i < m; i++)
            for (size_t j = 0; j < m; j++)
                K[i][j] = k(B[i], B[j]) + (i == j ? jit : 0);
        LM = ref::chol(K, ok);
        if (!ok)
            return;
        T dm = INFINITY, dx = 0;
        for (size_t i = 0; i < m; i++) {
            dm = std::min(dm, LM[i][i]);
            dx = std::max(dx, LM[i][i]);
        }
        cond = (dx / dm) * (dx / dm);
        Qmn.assign(n, ref::V(m));
        for (size_t i = 0; i < n; i++) {
            ref::V v(m);
            for (size_t j = 0; j < m; j++)
                v[j] = k(B[j], X[i]);
            Qmn[i] = ref::fsolve(LM, v);
        }
        ref::M S(n, ref::V(n));
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                S[i][j] = i == j ? c + sig : ref::dot(Qmn[i], Qmn[j]);
        L = ref::chol(S, ok);
        if (!ok)
            return;
        dm = INFINITY, dx = 0;
        for (size_t i = 0; i < n; i++) {
            dm = std::min(dm, L[i][i]);
            dx = std::max(dx, L[i][i]);
        }
        cond = std::max(cond, n * (c + sig) / sig);
        al = ref::bsolve(L, ref::fsolve(L, y));
    }
    T lik() const
    {
        T d = 0, q = ref::dot(y, al);
        for (size_t i = 0; i < L.size(); i++)
            d += std::log(L[i][i]);
        return -d - q / 2 - T(X.size()) / 2 * std::log(2 * acosl(-1));
    }
    T quad() const { return ref::dot(y, al); }
    void predict(const ref::V& x, T& mu, T& var) const
    {
        ref::V v(B.size());
        for (size_t j = 0; j < B.size(); j++)
            v[j] = k(B[j], x);
        v = ref::fsolve(LM, v);
        ref::V q(X.size());
        for (size_t i = 0; i < X.size(); i++)
            q[i] = ref::dot(v, Qmn[i]);
        mu = ref::dot(q, al);
        ref::V w = ref::fsolve(L, q);
        var = c - ref::dot(w, w) + sig;
    }
};
template <typename Mn>
T mean_of(const VectorXd& x, const Vs& Y, const VectorXd& hp)
{
    enum { k = MeanOf<Mn>::v };
    T s = 0;
    if (k == ref::DATA) {
        for (auto& y : Y)
            s += (T)y(0) / Y.size();
        return s;
    }
    if (k == ref::USER)
        return ref::user_mean(ref::tov(x), 1, ref::tov(hp))[0];
    return k == ref::CONST ? (T)hp(0) : 0;
}
namespace kit {
    template <>
    struct MeanOf<limbo::mean::Data<SP>> {
        enum { v = ref::DATA };
    };
    template <>
    struct MeanOf<limbo::mean::Constant<SP>> {
        enum { v = ref::CONST };
    };
    template <>
    struct MeanOf<limbo::mean::NullFunction<SP>> {
        enum { v = ref::NUL };
    };
    template <>
    struct MeanOf<UserMean<SP>> {
        enum { v = ref::USER };
    };
}
template <typename G>
void set_hp(G& g, const VectorXd& p, std::true_type) { g.mean_function().set_h_params(p); }
template <typename G>
void set_hp(G&, const VectorXd&, std::false_type) {}
template <typename G>
void get_hp(const G& g, VectorXd& p, std::true_type) { p = g.mean_function().h_params(); }
template <typename G>
void get_hp(const G&, VectorXd&, std::false_type) {}

template <typename Mn>
void one(mon::Rng& r)
{
    typedef limbo::model::SPGP<SP, limbo::kernel::SquaredExpARD<SP>, Mn, HOpt> G;
    cfg() = Cfg();
    cfg().constant = r.range(-2, 2);
    cfg().u0 = r.range(-1, 1);
    cfg().u1 = r.range(-1, 1);
    typedef std::integral_constant<bool, MeanOf<Mn>::v == ref::CONST || MeanOf<Mn>::v == ref::USER> Has;
    sc() = SCfg();
    int d = r.integer(1, 4), n = r.integer(3, mon::S().thorough ? 50 : 25);
    int kind = r.integer(0, 3);
    sc().percent = kind == 0 ? 100 : kind == 1 ? r.range(10, 60) : 10;
    sc().min_m = kind == 2 ? r.integer(1, 8) : kind == 3 ? r.integer(1, 3) : 1;
    sc().jitter = r.coin() ? 1e-6 : r.logrange(1e-6, 1e-4);
    Vs X, Y;
    auto point = [&]() {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.range(0, 1);
        return x;
    };
    double off = r.range(-3, 3);
    auto val = [&](const VectorXd& x) { return VectorXd(VectorXd::Constant(1, off + std::sin(4 * x.sum()) + 0.3 * r.gauss())); };
    for (int i = 0; i < n; i++) {
        X.push_back(point());
        Y.push_back(val(X.back()));
    }
    G gp(d, 1);
    std::string what = mon::str("n=", n, " in=", d, " percent=", sc().percent, " min_m=", sc().min_m, " ", MeanOf<Mn>::v == ref::DATA ? "data mean" : MeanOf<Mn>::v == ref::CONST ? "constant mean" : MeanOf<Mn>::v == ref::USER ? "user mean" : "no mean");
    // before any data: the prior
    if (r.coin(0.3)) {
        VectorXd v = point();
        VectorXd m;
        double s;
        std::tie(m, s) = gp.query(v);
        limbo::kernel::SquaredExpARD<SP> k(d);
        VectorXd uhp(2);
        uhp << cfg().u0, cfg().u1;
        T want = MeanOf<Mn>::v == ref::CONST ? (T)cfg().constant : MeanOf<Mn>::v == ref::USER ? ref::user_mean(ref::tov(v), 1, ref::tov(uhp))[0] : 0;
        mon::check(m.size() == 1 && mon::near(m(0), want, 1e-12) && mon::near(s, k(v, v), 1e-12), "spgp:prior", what + mon::str(": without data query gives ", mon::vec(m), " ", s));
        mon::event("prior");
    }
    VectorXd shift = VectorXd::Constant(1, cfg().constant);
    if (MeanOf<Mn>::v == ref::USER) {
        shift = VectorXd(2);
        shift << cfg().u0, cfg().u1;
    }
    VectorXd w; // parameters in force
    double fw = 0;
    bool sub_checked = false;
    // where the harness' optimiser goes
    auto random_w = [&](const VectorXd& init, int m) {
        VectorXd p(init.size());
        for (int i = 0; i < m * d; i++)
            p(i) = r.coin(0.9) ? r.range(-0.1, 1.1) : r.range(-1, 2);
        for (int j = 0; j < d; j++)
            p(m * d + j) = std::log(r.logrange(0.3, 60));
        p(m * d + d) = std::log(r.logrange(0.1, 5));
        p(m * d + d + 1) = std::log(r.logrange(0.01, 0.5));
        return p;
    };
    int calls = 0, mode = 0;
    VectorXd given;
    std::vector<double> gerr;
    auto nv = mon::S().nviol;
    plan() = [&](const Obj& f, const VectorXd& init, bool bounded) {
        calls++;
        int m = ((int)init.size() - 2) / d - 1;
        mon::check((int)init.size() == (m + 1) * d + 2 && m >= 1, "spgp:parameters", what + mon::str(": ", init.size(), " parameters"));
        mon::check(!bounded, "spgp:bounded", what + ": hyper-parameters optimised with bounds");
        given = init;
        VectorXd p = mode == 0 ? init : random_w(init, m);
        if (mode == 2) { // pseudo-inputs equal to the data
            // whatever the layout, a permutation of the initial values that the model reports back as the data
            p.head(m * d) = init.head(m * d);
        }
        // the gradient is the derivative of the value it comes with
        if (mode != 0) {
            auto e = f(p, true);
            fw = limbo::opt::fun(e);
            VectorXd g = limbo::opt::grad(e);
            mon::check(g.size() == p.size(), "spgp:gradient-size", what + mon::str(": gradient of size ", g.size(), " for ", p.size(), " parameters"));
            double f0 = limbo::opt::fun(f(p, false));
            mon::check(mon::rel(f0, fw, 1e-12), "spgp:value-with-gradient", what + mon::str(": value ", f0, " without and ", fw, " with gradient"));
            for (int t = 0; t < 4 && g.size() == p.size(); t++) {
                int i = t == 0 ? (int)p.size() - 1 : t == 1 ? (int)p.size() - 2 : t == 2 ? m * d + r.integer(0, d - 1) : r.integer(0, m * d - 1);
                double best = INFINITY;
                double fd = 0;
                for (double h : {1e-3, 1e-4, 1e-5}) {
                    auto at = [&](double s) {
                        VectorXd q = p;
                        q(i) += s * h;
                        return limbo::opt::fun(f(q, false));
                    };
                    double e4 = (8 * (at(1) - at(-1)) - (at(2) - at(-2))) / (12 * h);
                    double err = std::fabs(e4 - g(i));
                    if (err < best) {
                        best = err;
                        fd = e4;
                    }
                }
                mon::event("gradient_components");
                double tol = 2e-4 * (1 + std::fabs(fd) + 1e-2 * std::fabs(fw)) + 1e-8 * std::fabs(fw) / 1e-3;
                mon::check(best < tol, "spgp:gradient", mon::str(what, " m=", m, ": derivative ", i, " of ", p.size(), " is ", g(i), ", the likelihood changes by ", fd));
            }
        }
        w = p;
        return p;
    };
    int steps = r.integer(1, 4);
    for (int s = 0; s < steps; s++) {
        mode = r.coin(0.3) ? 0 : kind == 0 && r.coin(0.4) ? 2 : 1;
        int before = calls;
        int op = s == 0 ? 0 : r.integer(0, 4);
        if (s == 0 && r.coin(0.3)) { // grown from nothing
            mode = 1;
            for (size_t i = 0; i < X.size(); i++)
                gp.add_sample(X[i], Y[i]);
            before += X.size() - 1;
            what += " grow";
            mon::event("grown_from_nothing");
        }
        else if (s == 0 && r.coin(0.2)) {
            gp = G(X, Y);
            gp.recompute(r.coin());
            what += " construct recompute";
            mon::event("constructed_with_data");
        }
        else if (op == 0) {
            gp.compute(X, Y);
            what += " compute";
        }
        else if (op == 1) {
            VectorXd x = point(), y = val(x);
            X.push_back(x);
            Y.push_back(y);
            gp.add_sample(x, y);
            what += " add";
        }
        else if (op == 2) {
            if (Has::value) {
                for (int i = 0; i < shift.size(); i++)
                    shift(i) = r.range(-2, 2);
                set_hp(gp, shift, Has());
                what += " set-mean";
            }
            gp.recompute(true);
            what += " recompute";
        }
        else if (op == 4) {
            gp.optimize_hyperparams();
            what += " optimize";
        }
        else {
            MatrixXd mx(X.size(), d), my(Y.size(), 1);
            for (size_t i = 0; i < X.size(); i++) {
                mx.row(i) = X[i].transpose();
                my(i, 0) = Y[i](0);
            }
            gp.compute(mx, my);
            what += " compute-matrix";
        }
        // the parameters of the mean function in force (compute() builds it anew)
        get_hp(gp, shift, Has());
        mon::event(mon::str("op ", op));
        mon::evaluation();
        n = X.size();
        mon::check(calls == before + 1, "spgp:optimised", what + mon::str(": the hyper-parameters were optimised ", calls - before, " times"));
        Vs ps = gp.pseudo_samples();
        int m = ((int)w.size() - 2) / d - 1;
        size_t wantm = std::min((size_t)n, std::max((size_t)(sc().percent * n / 100), (size_t)sc().min_m));
        mon::check(ps.size() == wantm && gp.nb_pseudo_samples() == (int)wantm && m == (int)wantm, "spgp:number", mon::str(what, ": ", ps.size(), " pseudo-inputs instead of ", wantm));
        mon::check(gp.nb_samples() == n && gp.samples() == X, "spgp:samples", what + ": samples() are not the given ones");
        mon::check(mon::near(gp.mean_observation()(0), mean_of<limbo::mean::Data<SP>>(X[0], Y, shift), 1e-10), "spgp:mean-observation", what + ": mean_observation");
        if (nv != mon::S().nviol)
            return;
        // the hyper-parameters start from the spread of the data
        if (op != 4 && given.size() == (m + 1) * d + 2) {
            ref::T q = 0;
            for (size_t i = 0; i < X.size(); i++) {
                ref::T e = Y[i](0) - mean_of<Mn>(X[i], Y, shift);
                q += e * e / X.size();
            }
            bool ok = true;
            for (int j = 0; j < d; j++) {
                double lo = INFINITY, hi = -INFINITY;
                for (auto& x : X) {
                    lo = std::min(lo, x(j));
                    hi = std::max(hi, x(j));
                }
                if (hi - lo > 1e-6)
                    ok = ok && mon::near(given(m * d + j), -2 * std::log((hi - lo) / 2), 1e-9);
            }
            if (q > 1e-12) {
                mon::event("starts read off the data");
                ok = ok && mon::near(given(m * d + d), (double)std::log(q), 1e-8) && mon::near(given(m * d + d + 1), (double)std::log(q / 4), 1e-8);
            }
            mon::check(ok, "spgp:start", mon::str(what, ": the search starts at ", mon::vec(given.tail(d + 2))));
        }
        // the initial pseudo-inputs are different samples of the data
        if (mode == 0 || mode == 2) {
            std::set<size_t> used;
            bool ok = true;
            for (auto& p : ps) {
                bool f = false;
                for (size_t i = 0; i < X.size() && !f; i++)
                    if ((X[i] - p).cwiseAbs().maxCoeff() < 1e-14 && !used.count(i)) {
                        used.insert(i);
                        f = true;
                    }
                ok = ok && f;
            }
            mon::event("initial_subset");
            mon::check(ok, "spgp:initial-subset", mon::str(what, ": the initial ", ps.size(), " pseudo-inputs are not a subset of the ", n, " samples, first ", mon::vec(ps[0])));
        }
        Dense D;
        for (auto& x : X)
            D.X.push_back(ref::tov(x));
        for (auto& p : ps)
            D.B.push_back(ref::tov(p));
        for (int j = 0; j < d; j++)
            D.b.push_back(std::exp((T)w(m * d + j)));
        D.c = std::exp((T)w(m * d + d));
        D.sig = std::exp((T)w(m * d + d + 1));
        D.jit = sc().jitter;
        for (size_t i = 0; i < X.size(); i++)
            D.y.push_back((T)Y[i](0) - mean_of<Mn>(X[i], Y, shift));
        D.build();
        T e = 1e-15L * D.cond * n * 100 + 1e-9L;
        if (!D.ok || e > 1e-4L) {
            mon::event("skipped_ill_conditioned");
            continue;
        }
        mon::event(m == n ? "full" : m == 1 ? "one_pseudo_input" : "sparse");
        if (mode != 0) {
            T want = D.lik();
            mon::event("likelihoods");
            mon::check(mon::near(fw, want, e * (n + D.quad() + 1)), "spgp:likelihood", mon::str(what, " m=", m, ": likelihood ", fw, " but the dense evaluation gives ", (double)want, " (tol ", (double)(e * (n + D.quad() + 1)), ")"));
        }
        T ys = 0, as = 0;
        for (auto v : D.y)
            ys = std::max(ys, std::fabs(v));
        for (auto v : D.al)
            as += std::fabs(v);
        MatrixXd Q(3, d);
        for (int q = 0; q < 3; q++) {
            VectorXd v = q == 0 ? X[r.integer(0, n - 1)] : q == 1 ? point() : VectorXd(3 * point());
            Q.row(q) = v.transpose();
            T mu, var;
            D.predict(ref::tov(v), mu, var);
            mu += mean_of<Mn>(v, Y, shift);
            VectorXd pm;
            double pv;
            std::tie(pm, pv) = gp.query(v);
            mon::event("predictions");
            mon::check(pm.size() == 1 && mon::near(pm(0), mu, e * (1 + ys + D.c * as)), "spgp:mean", mon::str(what, " m=", m, ": predicted mean ", mon::vec(pm), " dense ", (double)mu, " at ", mon::vec(v)));
            mon::check(mon::near(pv, var, e * (1 + D.c)) && pv > 0, "spgp:variance", mon::str(what, " m=", m, ": predicted variance ", pv, " dense ", (double)var, " at ", mon::vec(v)));
            double sg = gp.sigma(v);
            MatrixXd mm = gp.mu(v.transpose());
            mon::check(mm.size() == 1 && mon::rel(mm(0, 0), pm(0), 1e-10) && mon::rel(sg, pv, 1e-10), "spgp:query", mon::str(what, ": mu ", mm(0, 0), " sigma ", sg, " but query gives ", pm(0), " ", pv));
        }
        auto pr = gp.predict(Q);
        for (int q = 0; q < 3; q++) {
            VectorXd pm;
            double pv;
            std::tie(pm, pv) = gp.query(Q.row(q).transpose());
            mon::check(pr.first.rows() == 3 && mon::rel(pr.first(q, 0), pm(0), 1e-10) && mon::rel(pr.second(q, 0), pv, 1e-10), "spgp:predict", what + ": predicting several points differs from predicting one");
        }
        // pseudo-inputs equal to the data: the exact GP (up to the jitter)
        if (mode == 2 && m == n) {
            ref::M K(n, ref::V(n));
            for (int i = 0; i < n; i++)
                for (int j = 0; j < n; j++)
                    K[i][j] = D.k(D.X[i], D.X[j]) + (i == j ? D.sig : 0);
            bool ok;
            ref::M L = ref::chol(K, ok);
            ref::V al = ref::bsolve(L, ref::fsolve(L, D.y));
            VectorXd v = point();
            ref::V kv(n);
            for (int i = 0; i < n; i++)
                kv[i] = D.k(D.X[i], ref::tov(v));
            ref::V z = ref::fsolve(L, kv);
            T mu = ref::dot(kv, al) + mean_of<Mn>(v, Y, shift), var = D.c - ref::dot(z, z) + D.sig;
            VectorXd pm;
            double pv;
            std::tie(pm, pv) = gp.query(v);
            T tol = 0.02L * (T)n * std::sqrt(sc().jitter / 1e-6L);
            mon::event("exact_gp");
            mon::check(mon::near(pm(0), mu, tol * (1 + ys)) && mon::near(pv, var, tol * (1 + D.c)), "spgp:exact", mon::str(what, ": with the data as pseudo-inputs predicts ", pm(0), " ", pv, " but the full GP ", (double)mu, " ", (double)var));
        }
        mon::distinct(mon::Hash().add(n).addv(w).h);
        if (nv != mon::S().nviol)
            return;
    }
    mon::sample(what);
}
// the default optimiser, watched: it searches at every call, and does not lower the likelihood
static std::string& real_what()
{
    static std::string s;
    return s;
}
static int& real_calls()
{
    static int n = 0;
    return n;
}
struct Watched {
    limbo::opt::NLOptGrad<SP, nlopt::LD_LBFGS> o;
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded)
    {
        real_calls()++;
        long n = 0;
        auto g = [&](const VectorXd& x, bool gr) { n++; return f(x, gr); };
        VectorXd res = o(g, init, bounded);
        double a = limbo::opt::fun(f(init, false)), b = limbo::opt::fun(f(res, false));
        mon::event("default_optimisations");
        mon::event("default_optimiser_evaluations", n);
        mon::check(n >= 2, "spgp:not-optimised", real_what() + mon::str(": the default optimiser evaluated the likelihood ", n, " times from ", init.size(), " parameters"));
        mon::check(!std::isfinite(a) || b >= a - 1e-9 * (1 + std::fabs(a)), "spgp:likelihood-lowered", real_what() + mon::str(": the likelihood was ", a, " at the start and is ", b));
        if (b > a)
            mon::event("likelihood_raised");
        return res;
    }
};
void real(mon::Rng& r)
{
    typedef limbo::model::SPGP<SP, limbo::kernel::SquaredExpARD<SP>, limbo::mean::Data<SP>, Watched> G;
    sc() = SCfg();
    sc().percent = r.range(10, 50);
    int d = r.integer(1, 3), n = r.integer(8, 40);
    Vs X, Y;
    auto more = [&]() {
        VectorXd x(d);
        for (int j = 0; j < d; j++)
            x(j) = r.unit();
        X.push_back(x);
        Y.push_back(VectorXd::Constant(1, std::sin(4 * x.sum()) + 0.1 * r.gauss()));
    };
    for (int i = 0; i < n; i++)
        more();
    real_what() = mon::str("n=", n, " in=", d, " percent=", sc().percent);
    G gp;
    gp.compute(X, Y);
    int expect = 1, steps = r.integer(0, 6), start = real_calls() - 1;
    for (int s = 0; s < steps; s++, expect++) {
        int op = r.integer(0, 3);
        if (op <= 1) {
            more();
            gp.add_sample(X.back(), Y.back());
            real_what() += " add";
        }
        else if (op == 2) {
            for (int i = 0; i < 10; i++)
                more();
            gp.compute(X, Y);
            real_what() += " compute";
        }
        else {
            gp.optimize_hyperparams();
            real_what() += " optimize";
        }
    }
    mon::check(real_calls() - start == expect, "spgp:real-optimised", real_what() + mon::str(": ", real_calls() - start, " optimisations"));
    mon::evaluation();
    mon::event("default_optimiser");
    for (int q = 0; q < 5; q++) {
        VectorXd v(d), m;
        for (int j = 0; j < d; j++)
            v(j) = r.range(-1, 2);
        double s;
        std::tie(m, s) = gp.query(v);
        mon::check(std::isfinite(m(0)) && std::isfinite(s) && s >= 0, "spgp:finite", mon::str("n=", n, " in=", d, ": predicts ", m(0), " ", s));
    }
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
        switch (c % 8) {
        case 0:
        case 3: one<limbo::mean::Data<SP>>(r); break;
        case 1:
        case 4: one<limbo::mean::Constant<SP>>(r); break;
        case 2:
        case 5: one<limbo::mean::NullFunction<SP>>(r); break;
        case 6: one<UserMean<SP>>(r); break;
        default: real(r);
        }
    });
    return mon::finish();
}
