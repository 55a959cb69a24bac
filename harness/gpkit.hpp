// limbo GP types the drivers instantiate, all with parameters chosen at run
// time, plus random workloads for them.
#ifndef VERIF_GPKIT_HPP
#define VERIF_GPKIT_HPP
#include "mon.hpp"
#include "ref.hpp"
#include <Eigen/Core>
#include <limbo/kernel/exp.hpp>
#include <limbo/kernel/matern_five_halves.hpp>
#include <limbo/kernel/matern_three_halves.hpp>
#include <limbo/kernel/squared_exp_ard.hpp>
#include <limbo/mean/constant.hpp>
#include <limbo/mean/data.hpp>
#include <limbo/mean/function_ard.hpp>
#include <limbo/mean/null_function.hpp>
#include <limbo/model/gp.hpp>

namespace kit {
    using Eigen::MatrixXd;
    using Eigen::VectorXd;
    typedef std::vector<VectorXd> Vs;

    struct Cfg {
        double noise = 0.01, sigma_sq = 1, l = 1, constant = 1;
        bool opt_noise = false;
        int se_k = 0;
        double u0 = 0.4, u1 = -0.2;
        int max_points = 200;
        int rprop_iter = 300;
        double rprop_eps = 0.;
    };
    inline Cfg& cfg()
    {
        static Cfg c;
        return c;
    }
    struct Params {
        struct kernel {
            static double noise() { return cfg().noise; }
            static bool optimize_noise() { return cfg().opt_noise; }
        };
        struct kernel_exp {
            static double sigma_sq() { return cfg().sigma_sq; }
            static double l() { return cfg().l; }
        };
        struct kernel_maternfivehalves : kernel_exp {
        };
        struct kernel_maternthreehalves : kernel_exp {
        };
        struct kernel_squared_exp_ard {
            static int k() { return cfg().se_k; }
            static double sigma_sq() { return cfg().sigma_sq; }
        };
        struct mean_constant {
            static double constant() { return cfg().constant; }
        };
        struct opt_rprop {
            static int iterations() { return cfg().rprop_iter; }
            static double eps_stop() { return cfg().rprop_eps; }
        };
        struct model_sparse_gp {
            static int max_points() { return cfg().max_points; }
        };
    };
    // a user-defined, non-stationary kernel (the library must only rely on the
    // documented interface: kernel, gradient, params_size, params, set_params)
    template <typename P>
    struct UserLinear : public limbo::kernel::BaseKernel<P, UserLinear<P>> {
        UserLinear(size_t dim = 1) : _p(2) { _p << std::log(cfg().l), std::log(std::sqrt(cfg().sigma_sq)); }
        size_t params_size() const { return 2; }
        VectorXd params() const { return _p; }
        void set_params(const VectorXd& p) { _p = p; }
        double kernel(const VectorXd& a, const VectorXd& b) const { return std::exp(2 * _p(1)) * (1 + a.dot(b) * std::exp(-2 * _p(0))); }
        VectorXd gradient(const VectorXd& a, const VectorXd& b) const
        {
            VectorXd g(2);
            g(0) = std::exp(2 * _p(1)) * a.dot(b) * std::exp(-2 * _p(0)) * -2;
            g(1) = 2 * kernel(a, b);
            return g;
        }
        VectorXd _p;
    };
    // a user-defined mean which depends on the query point
    template <typename P>
    struct UserMean : public limbo::mean::BaseMean<P> {
        UserMean(size_t dim_out = 1) : _d(dim_out), _p(2) { _p << cfg().u0, cfg().u1; }
        template <typename GP>
        VectorXd operator()(const VectorXd& x, const GP&) const
        {
            VectorXd m(_d);
            for (size_t o = 0; o < _d; o++)
                m(o) = _p(0) * s(x, o) + _p(1) * (o + 1);
            return m;
        }
        template <typename GP>
        MatrixXd grad(const VectorXd& x, const GP&) const
        {
            MatrixXd g(_d, 2);
            for (size_t o = 0; o < _d; o++)
                g.row(o) << s(x, o), o + 1.;
            return g;
        }
        size_t h_params_size() const { return 2; }
        VectorXd h_params() const { return _p; }
        void set_h_params(const VectorXd& p) { _p = p; }
        double s(const VectorXd& x, int o) const
        {
            double r = 0;
            for (long i = 0; i < x.size(); i++)
                r += std::sin((1.7 + 0.6 * o) * x(i) + 0.3 * i);
            return r;
        }
        size_t _d;
        VectorXd _p;
    };

    template <typename P>
    using KExp = limbo::kernel::Exp<P>;
    template <typename K>
    struct KindOf;
    template <>
    struct KindOf<limbo::kernel::Exp<Params>> {
        enum { v = ref::EXP };
    };
    template <>
    struct KindOf<limbo::kernel::MaternThreeHalves<Params>> {
        enum { v = ref::M32 };
    };
    template <>
    struct KindOf<limbo::kernel::MaternFiveHalves<Params>> {
        enum { v = ref::M52 };
    };
    template <>
    struct KindOf<limbo::kernel::SquaredExpARD<Params>> {
        enum { v = ref::SE };
    };
    template <>
    struct KindOf<UserLinear<Params>> {
        enum { v = ref::LIN };
    };
    template <typename Mn>
    struct MeanOf;
    template <>
    struct MeanOf<limbo::mean::Data<Params>> {
        enum { v = ref::DATA };
    };
    template <>
    struct MeanOf<limbo::mean::Constant<Params>> {
        enum { v = ref::CONST };
    };
    template <>
    struct MeanOf<limbo::mean::NullFunction<Params>> {
        enum { v = ref::NUL };
    };
    template <>
    struct MeanOf<UserMean<Params>> {
        enum { v = ref::USER };
    };
    template <>
    struct MeanOf<limbo::mean::FunctionARD<Params, limbo::mean::Data<Params>>> {
        enum { v = ref::ARD_DATA };
    };
    template <>
    struct MeanOf<limbo::mean::FunctionARD<Params, limbo::mean::Constant<Params>>> {
        enum { v = ref::ARD_CONST };
    };
    template <>
    struct MeanOf<limbo::mean::FunctionARD<Params, UserMean<Params>>> {
        enum { v = ref::ARD_USER };
    };
    template <>
    struct MeanOf<limbo::mean::FunctionARD<Params, limbo::mean::NullFunction<Params>>> {
        enum { v = ref::ARD_NUL };
    };
    typedef limbo::kernel::Exp<Params> Exp;
    typedef limbo::kernel::MaternThreeHalves<Params> M32;
    typedef limbo::kernel::MaternFiveHalves<Params> M52;
    typedef limbo::kernel::SquaredExpARD<Params> SE;
    typedef UserLinear<Params> Lin;
    typedef limbo::mean::Data<Params> Data;
    typedef limbo::mean::Constant<Params> Const;
    typedef limbo::mean::NullFunction<Params> Null;
    typedef UserMean<Params> User;
    typedef limbo::mean::FunctionARD<Params, Data> ArdData;
    typedef limbo::mean::FunctionARD<Params, Const> ArdConst;
    typedef limbo::mean::FunctionARD<Params, User> ArdUser;
    typedef limbo::mean::FunctionARD<Params, Null> ArdNull;

    // ---- random workloads
    inline void random_cfg(mon::Rng& r, int kind)
    {
        Cfg c;
        c.noise = r.coin(0.1) ? r.logrange(1e-6, 1e-4) : r.logrange(1e-4, 0.5);
        c.sigma_sq = r.logrange(0.05, 20);
        c.l = r.logrange(0.08, 4);
        c.constant = r.range(-3, 3);
        c.opt_noise = r.coin(0.4);
        c.se_k = kind == ref::SE && r.coin(0.35) ? r.integer(1, 3) : 0;
        c.u0 = r.range(-1, 1);
        c.u1 = r.range(-1, 1);
        cfg() = c;
    }
    // a set of inputs: random, clustered, gridded, duplicated, outside [0,1], far away
    inline Vs random_points(mon::Rng& r, int n, int d)
    {
        int shape = r.integer(0, 5);
        Vs x;
        for (int i = 0; i < n; i++) {
            VectorXd v(d);
            for (int j = 0; j < d; j++)
                switch (shape) {
                case 0: v(j) = r.unit(); break;
                case 1: v(j) = 0.5 + 0.02 * r.gauss(); break;
                case 2: v(j) = r.integer(0, 4) / 4.0; break;
                case 3: v(j) = r.range(-3, 3); break;
                case 4: v(j) = r.coin(0.2) ? r.range(-30, 30) : r.unit(); break;
                default: v(j) = r.unit();
                }
            if (i && shape == 5 && r.coin(0.3))
                v = x[r.integer(0, i - 1)];
            x.push_back(v);
        }
        return x;
    }
    inline VectorXd random_query(mon::Rng& r, const Vs& x, int d)
    {
        VectorXd v(d);
        for (int j = 0; j < d; j++)
            v(j) = r.unit();
        int k = r.integer(0, 5);
        if (k == 0 && !x.empty())
            v = x[r.integer(0, (int)x.size() - 1)];
        else if (k == 1 && !x.empty())
            v = x[r.integer(0, (int)x.size() - 1)] + 1e-3 * v;
        else if (k == 2)
            v = 6 * v - VectorXd::Constant(d, 3);
        else if (k == 3 && r.coin(0.4))
            v = 100 * v;
        else if (k == 4)
            for (int j = 0; j < d; j++)
                v(j) = r.integer(0, 1);
        return v;
    }
    inline VectorXd random_obs(mon::Rng& r, int o, double scale, double off)
    {
        VectorXd y(o);
        for (int j = 0; j < o; j++)
            y(j) = off * (j + 1) + scale * (1 + 0.5 * j) * r.gauss();
        return y;
    }
    inline VectorXd random_kp(mon::Rng& r, int kind, int d, int k)
    {
        VectorXd p(ref::nkp(kind, d, k));
        for (long i = 0; i < p.size(); i++)
            p(i) = std::log(r.logrange(0.08, 4));
        if (kind == ref::SE)
            for (int i = d; i < d + d * k; i++)
                p(i) = r.range(-2, 2);
        p(p.size() - 1) = 0.5 * std::log(r.logrange(0.05, 20));
        return p;
    }
    inline VectorXd random_mp(mon::Rng& r, int mean, int o)
    {
        VectorXd p(ref::nmp(mean, o));
        for (long i = 0; i < p.size(); i++)
            p(i) = r.range(-1.5, 1.5);
        return p;
    }
    // the kernel parameters a freshly built kernel documents (Params)
    inline ref::V default_kp(int kind, int d)
    {
        const Cfg& c = cfg();
        if (kind == ref::SE) {
            ref::V p(ref::nkp(kind, d, c.se_k), 0);
            p.back() = 0.5L * std::log((ref::T)c.sigma_sq);
            return p;
        }
        return {std::log((ref::T)c.l), 0.5L * std::log((ref::T)c.sigma_sq)};
    }
    inline ref::V default_mp(int mean, int o)
    {
        const Cfg& c = cfg();
        ref::V p(ref::nmp(mean, o), 0);
        if (ref::is_ard(mean))
            for (int i = 0; i < o; i++)
                p[i * (o + 2)] = 1;
        int b = ref::base_mean(mean), off = p.size() - ref::nbm(mean);
        if (b == ref::CONST)
            p[off] = c.constant;
        if (b == ref::USER) {
            p[off] = c.u0;
            p[off + 1] = c.u1;
        }
        return p;
    }
    inline ref::GP blank(int kind, int mean, int d, int o)
    {
        ref::GP g;
        g.kind = kind;
        g.mean = mean;
        g.se_k = cfg().se_k;
        g.dim_in = d;
        g.dim_out = o;
        g.kp = default_kp(kind, d);
        g.noise = cfg().noise;
        g.mp = default_mp(mean, o);
        g.ok = true;
        g.cond = 1;
        g.kmax = 0;
        g.mean_obs = ref::V(o, 0);
        return g;
    }
    // what set_h_params on the kernel must do
    inline void set_kernel(ref::GP& g, const VectorXd& hp)
    {
        int n = ref::nkp(g.kind, g.dim_in, g.se_k);
        for (int i = 0; i < n; i++)
            g.kp[i] = hp(i);
        if (cfg().opt_noise)
            g.noise = std::exp(2 * (ref::T)hp(n));
    }
    inline void set_mean(ref::GP& g, const VectorXd& mp)
    {
        g.mp = ref::tov(mp);
    }
    inline VectorXd random_hp(mon::Rng& r, int kind, int d)
    {
        VectorXd p = random_kp(r, kind, d, cfg().se_k);
        if (cfg().opt_noise) {
            p.conservativeResize(p.size() + 1);
            p(p.size() - 1) = 0.5 * std::log(r.logrange(1e-4, 0.5));
        }
        return p;
    }

    struct Tol {
        ref::T mu, var, lik;
        bool use;
    };
    // forward error of a Cholesky-based computation
    inline Tol tol(const ref::GP& g)
    {
        ref::T n = g.X.size() + 1, e = 2.3e-16L;
        ref::T rel = 1e-10L + 30 * n * e * g.cond;
        Tol t;
        ref::T ys = g.scale_y();
        for (auto& y : g.Y)
            for (auto v : y)
                ys = std::max(ys, std::fabs(v));
        ref::T aw = 0; // sum_i |k_i||alpha_i| bound
        for (auto& a : g.alpha)
            for (auto v : a)
                aw = std::max(aw, std::fabs(v));
        t.mu = rel * std::max((ref::T)1e-3, ys) + 50 * n * e * n * aw * g.kmax + 1e-10L;
        t.var = rel * std::max(g.kmax, (ref::T)1e-3) + 1e-12L;
        ref::T q = 0;
        for (size_t o = 0; o < g.R.size(); o++)
            q += std::fabs(ref::dot(g.R[o], g.alpha[o]));
        t.lik = rel * (n * (1 + std::fabs(std::log(g.cond))) + q) + 1e-9L;
        t.use = g.ok && rel < 1e-5L;
        return t;
    }

    template <typename GPT>
    struct Probe {
        const char* where;
        // compares everything the model shows with the reference; returns false on the first difference
        static bool agree(const GPT& gp, const ref::GP& g, mon::Rng& r, const std::string& key, const std::string& what, int nq = 4)
        {
            Tol t = tol(g);
            Vs xs;
            for (auto& x : g.X) {
                VectorXd v(g.dim_in);
                for (int j = 0; j < g.dim_in; j++)
                    v(j) = (double)x[j];
                xs.push_back(v);
            }
            if (!t.use) {
                mon::event("skipped_ill_conditioned");
                return true;
            }
            for (int q = 0; q < nq; q++) {
                VectorXd v = random_query(r, xs, g.dim_in);
                ref::V rv = ref::tov(v);
                ref::V rm = g.mu(rv);
                ref::T rs = g.var(rv);
                rs = std::max(rs, (ref::T)0) + g.noise;
                VectorXd m = gp.mu(v);
                double s = gp.sigma(v);
                VectorXd qm;
                double qs;
                std::tie(qm, qs) = gp.query(v);
                mon::evaluation();
                if (!g.X.empty() && g.var(rv) < 0.999L * g.k(rv, rv))
                    mon::event("informative_query");
                ref::T tv = t.var;
                if (g.kind == ref::LIN)
                    tv += t.var * g.k(rv, rv) / std::max(g.kmax, (ref::T)1e-3);
                bool okm = m.size() == g.dim_out && qm.size() == g.dim_out, okq = okm;
                ref::T tm = t.mu;
                if (g.kind == ref::LIN)
                    tm *= 1 + std::sqrt(g.k(rv, rv) / std::max(g.kmax, (ref::T)1e-3));
                for (int o = 0; okm && o < g.dim_out; o++) {
                    okm = mon::near(m(o), rm[o], tm + 1e-10L * std::fabs(rm[o]));
                    okq = okq && mon::near(qm(o), rm[o], tm + 1e-10L * std::fabs(rm[o]));
                }
                if (!mon::check(okm, key + ":mu", mon::str(what, ": mu(", mon::vec(v), ") = ", mon::vec(m), " but the posterior mean of the data is ", (double)rm[0], g.dim_out > 1 ? mon::str(",", (double)rm[1]) : "", " (tol ", (double)tm, ")")))
                    return false;
                if (!mon::check(okq, key + ":query-mu", mon::str(what, ": query(", mon::vec(v), ") mean = ", mon::vec(qm), " reference ", (double)rm[0], " (tol ", (double)tm, ")")))
                    return false;
                if (!mon::check(mon::near(s, rs, tv), key + ":sigma", mon::str(what, ": sigma(", mon::vec(v), ") = ", s, " but the posterior variance is ", (double)rs, " (tol ", (double)tv, ")")))
                    return false;
                if (!mon::check(mon::near(qs, rs, tv), key + ":query-sigma", mon::str(what, ": query(", mon::vec(v), ") variance = ", qs, " reference ", (double)rs)))
                    return false;
            }
            return true;
        }
    };
    inline std::string describe(const ref::GP& g)
    {
        return mon::str(ref::kname(g.kind), g.kind == ref::SE ? mon::str("(k=", g.se_k, ")") : "", "/", ref::mname(g.mean), " n=", g.X.size(), " in=", g.dim_in, " out=", g.dim_out, " noise=", (double)g.noise, cfg().opt_noise ? "(opt)" : "");
    }
    inline uint64_t hash_of(const ref::GP& g)
    {
        mon::Hash h;
        h.add(g.kind).add(g.mean).add(g.se_k).add(g.dim_in).add(g.dim_out).add(g.X.size()).addd((double)g.noise);
        for (auto v : g.kp)
            h.addd((double)v);
        for (auto v : g.mp)
            h.addd((double)v);
        for (auto& x : g.X)
            for (auto v : x)
                h.addd((double)v);
        return h.h;
    }
} // namespace kit
#endif
