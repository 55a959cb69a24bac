// C09: a MultiGP predicts what independent GPs on the residuals predict, whatever its history
#include "gpkit.hpp"
#include <boost/filesystem.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/multi_gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include <limbo/model/sparsified_gp.hpp>
#include <limbo/opt/rprop.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
using namespace kit;
typedef limbo::model::gp::KernelLFOpt<Params, limbo::opt::Rprop<Params>> Inner;
typedef limbo::model::multi_gp::ParallelLFOpt<Params, Inner> Hp;

// a GP as the inner class, or a SparsifiedGP: same predictions on the samples it keeps (which ones: C10)
template <template <typename, typename, typename, typename> class G, typename K, typename Mn>
struct Multi {
    typedef limbo::model::MultiGP<Params, G, K, Mn, Hp> MG;
    typedef limbo::model::GP<Params, K, Null, Inner> Alone;
    enum { kind = KindOf<K>::v, mean = MeanOf<Mn>::v, sparse = !std::is_same<G<Params, K, Null, Inner>, Alone>::value };
    mon::Rng& r;
    MG gp;
    int d, o;
    ref::GP base; // data and mean
    std::vector<ref::V> kp; // one kernel per output
    std::vector<ref::T> noise;
    std::string hist;
    std::vector<ref::GP> fitted;

    Multi(mon::Rng& r_) : r(r_)
    {
        random_cfg(r, kind);
        cfg().noise = r.coin(0.8) ? r.logrange(5e-3, 0.5) : cfg().noise;
        cfg().rprop_iter = r.integer(1, 25);
        cfg().max_points = r.coin() ? 30 : r.integer(2, 10);
        d = r.integer(1, 4);
        o = r.integer(1, 4);
        base = blank(kind, mean, d, o);
        kp.assign(o, base.kp);
        noise.assign(o, base.noise);
        gp = MG(d, o);
        if (r.coin(0.25)) {
            gp = MG();
            r.coin() ? do_compute(r.integer(1, 5)) : do_add();
        }
        fit();
    }
    void note(const std::string& s)
    {
        hist += s;
        if (hist.size() > 700)
            hist = "..." + hist.substr(hist.size() - 690);
        mon::event("op:" + s.substr(0, s.find('(')));
    }
    VectorXd obs(const VectorXd& x)
    {
        VectorXd y(o);
        for (int j = 0; j < o; j++)
            y(j) = (j + 1) * std::sin(2 * x.sum() + j) + 0.3 * r.gauss() + 2 * j;
        return y;
    }
    // the samples that a SparsifiedGP keeps, by their rank
    template <typename Op>
    void forget(const Op& op)
    {
        if (!sparse || (int)base.X.size() <= cfg().max_points)
            return;
        limbo::model::SparsifiedGP<Params, K, Null> s(d, 1);
        op(s);
        std::vector<ref::V> X, Y;
        for (auto& i : s.observations()) {
            X.push_back(base.X[(int)i(0)]);
            Y.push_back(base.Y[(int)i(0)]);
        }
        base.X = X;
        base.Y = Y;
        mon::event("samples dropped");
    }
    static VectorXd rank(int i) { return VectorXd::Constant(1, i); }
    Vs points() const
    {
        Vs xs;
        for (auto& x : base.X) {
            VectorXd v(d);
            for (int j = 0; j < d; j++)
                v(j) = (double)x[j];
            xs.push_back(v);
        }
        return xs;
    }
    template <typename S>
    void ranked(S& s, int n)
    {
        Vs x = points(), y;
        x.resize(n);
        for (int i = 0; i < n; i++)
            y.push_back(rank(i));
        s.compute(x, y);
    }
    void do_compute(int n, bool k = true)
    {
        Vs x = random_points(r, n, d), y;
        base.X.clear();
        base.Y.clear();
        for (auto& v : x) {
            y.push_back(obs(v));
            base.X.push_back(ref::tov(v));
            base.Y.push_back(ref::tov(y.back()));
        }
        if (n > 1 && r.coin(0.15)) { // the same place, observed twice
            int a = r.integer(0, n - 1), b = r.integer(0, n - 1);
            x[a] = x[b];
            base.X[a] = base.X[b];
        }
        gp.compute(x, y, k);
        forget([&](limbo::model::SparsifiedGP<Params, K, Null>& s) { ranked(s, n); });
        note(mon::str("compute(", n, k ? "" : ",nokernel", ") "));
    }
    // computing again with data of other dimensions builds what a new model would
    void reshape()
    {
        int d2 = r.coin() ? r.integer(1, 4) : d, o2 = r.coin(0.7) ? r.integer(1, 4) : o;
        if (o2 != o) {
            base.mp = default_mp(mean, o2);
        }
        if (o2 != o || d2 != d) {
            base.kp = default_kp(kind, d2);
            kp.assign(o2, base.kp);
            noise.assign(o2, cfg().noise);
        }
        base.dim_in = d = d2;
        base.dim_out = o = o2;
        base.mean_obs = ref::V(o, 0);
        note(mon::str("reshape(", d, ",", o, ") "));
        do_compute(r.integer(1, 8));
    }
    void do_add()
    {
        VectorXd x = random_points(r, 1, d)[0], y = obs(x);
        gp.add_sample(x, y);
        base.X.push_back(ref::tov(x));
        base.Y.push_back(ref::tov(y));
        forget([&](limbo::model::SparsifiedGP<Params, K, Null>& s) {
            int n = base.X.size() - 1;
            if (n)
                ranked(s, n);
            s.add_sample(x, rank(n));
        });
        note("add() ");
    }
    void kernel_hp()
    {
        for (int i = 0; i < o; i++)
            if (r.coin(0.7)) {
                VectorXd p = random_hp(r, kind, d);
                if (cfg().opt_noise)
                    p(p.size() - 1) = 0.5 * std::log(r.logrange(5e-3, 0.5));
                gp.gp_models()[i].kernel_function().set_h_params(p);
                take(i);
            }
    }
    void take(int i)
    {
        VectorXd p = gp.gp_models()[i].kernel_function().h_params();
        for (size_t j = 0; j < kp[i].size(); j++)
            kp[i][j] = p(j);
        if (cfg().opt_noise)
            noise[i] = std::exp(2 * (ref::T)p(p.size() - 1));
    }
    void mean_hp()
    {
        if (base.mp.empty())
            return;
        VectorXd p = random_mp(r, mean, o);
        gp.mean_function().set_h_params(p);
        base.mp = ref::tov(p);
    }
    template <typename A>
    void save_load(bool recompute)
    {
        std::string dir = (mon::S().scratch.empty() ? std::string(".") : mon::S().scratch) + "/march";
        gp.template save<A>(dir);
        MG other;
        int where = r.integer(0, 2);
        if (where == 0)
            gp.template load<A>(dir, recompute);
        else {
            if (where == 2) {
                other = MG(d, o + 1);
                Vs x = random_points(r, 3, d), y;
                for (int i = 0; i < 3; i++)
                    y.push_back(VectorXd::Constant(o + 1, i));
                other.compute(x, y);
            }
            other.template load<A>(dir, recompute);
            gp = other;
        }
        boost::filesystem::remove_all(dir);
        note(mon::str("save-load(", recompute, where, ") "));
        bool ok = gp.nb_samples() == (int)base.X.size() && gp.samples().size() == base.X.size();
        if (!mon::check(ok, "multi:archive", "another number of samples after " + hist))
            return;
        if (std::is_same<A, limbo::serialize::TextArchive>::value) {
            auto same = [&](ref::T& a, double b) {
                ok = ok && std::fabs(a - (ref::T)b) <= 1e-14L * std::fabs(a) + 1e-15L;
                a = b;
            };
            for (size_t i = 0; i < base.X.size(); i++) {
                for (int j = 0; j < d; j++)
                    same(base.X[i][j], gp.samples()[i](j));
                for (int j = 0; j < o; j++)
                    same(base.Y[i][j], gp.observations()[i](j));
            }
            for (int i = 0; i < o; i++) {
                VectorXd p = gp.gp_models()[i].kernel_function().h_params();
                for (size_t j = 0; j < kp[i].size(); j++)
                    same(kp[i][j], p(j));
                noise[i] = gp.gp_models()[i].kernel_function().noise();
            }
            VectorXd mp = gp.mean_function().h_params();
            for (size_t j = 0; j < base.mp.size(); j++)
                same(base.mp[j], mp(j));
            mon::check(ok, "multi:archive", "data or parameters changed by more than rounding through a text archive after " + hist);
        }
    }
    void optimize()
    {
        auto before = gp.gp_models();
        gp.optimize_hyperparams();
        note("optimize() ");
        mon::event("multi_optimisations");
        for (int i = 0; i < o; i++) {
            Alone a(d, 1);
            a.kernel_function() = before[i].kernel_function();
            a.compute(before[i].samples(), before[i].observations());
            a.optimize_hyperparams();
            VectorXd pa = a.kernel_function().h_params(), pm = gp.gp_models()[i].kernel_function().h_params();
            mon::check(pa.size() == pm.size() && (pa - pm).cwiseAbs().maxCoeff() < 1e-6 * (1 + pa.cwiseAbs().maxCoeff()), "multi:optimize", mon::str("optimising model ", i, " of ", o, " gave ", mon::vec(pm), " but alone it gives ", mon::vec(pa), " after ", hist));
            take(i);
        }
    }
    void step()
    {
        int n = base.X.size();
        if (n == 0) {
            r.coin(0.6) ? do_compute(r.integer(1, 8)) : do_add();
            return fit();
        }
        if (n >= 20) {
            do_compute(r.integer(1, 6));
            return fit();
        }
        bool a = r.coin(), b = r.coin();
        switch (r.integer(0, 12)) {
        case 0:
        case 1:
        case 2:
        case 3: do_add(); break;
        case 4: do_compute(r.integer(1, 8)); break;
        case 5:
            kernel_hp();
            gp.recompute(a, true);
            note("kernel-hp+recompute() ");
            break;
        case 6:
            mean_hp();
            gp.recompute(true, b);
            note(mon::str("mean-hp+recompute(", b, ") "));
            break;
        case 7:
            gp.recompute(a, b);
            note(mon::str("recompute(", a, ",", b, ") "));
            break;
        case 8: r.coin() ? save_load<limbo::serialize::BinaryArchive>(a) : save_load<limbo::serialize::TextArchive>(a); break;
        case 9:
            if (n <= 12)
                optimize();
            break;
        case 11: reshape(); break;
        case 10: {
            MG c(gp), e = gp;
            c.add_sample(VectorXd::Zero(d), VectorXd::Zero(o));
            e.compute(Vs(1, VectorXd::Zero(d)), Vs(1, VectorXd::Zero(o)));
            MG f(gp);
            gp = f;
            note("copy() ");
            break;
        }
        default:
            do_compute(r.integer(1, 8), false);
            kernel_hp();
            gp.recompute(a, true);
            note("recompute-late() ");
        }
        fit();
    }
    void fit()
    {
        base.fit(); // mean_obs, residuals
        fitted.clear();
        for (int i = 0; i < o; i++) {
            ref::GP g = base;
            g.kp = kp[i];
            g.noise = noise[i];
            g.fit();
            fitted.push_back(g);
        }
    }
    void verify()
    {
        std::string what = mon::str("MultiGP of ", ref::kname(kind), " with ", ref::mname(mean), " n=", base.X.size(), " in=", d, " out=", o, " after ", hist);
        Vs xs = points();
        if (!mon::check(gp.dim_in() == d && gp.dim_out() == o && gp.nb_samples() == (int)xs.size() && gp.gp_models().size() == (size_t)o, "multi:size", what + ": wrong dimensions or number of samples"))
            return;
        if (!xs.empty()) {
            bool ok = gp.samples().size() == xs.size() && gp.observations().size() == xs.size();
            for (size_t i = 0; ok && i < xs.size(); i++) {
                ok = gp.samples()[i] == xs[i];
                for (int j = 0; j < o; j++)
                    ok = ok && gp.observations()[i](j) == (double)base.Y[i][j] && gp.observations_matrix()(i, j) == (double)base.Y[i][j];
            }
            mon::check(ok, "multi:data", what + ": the model does not hold its data in order");
            VectorXd mo = gp.mean_observation();
            for (int j = 0; j < o; j++)
                mon::check(mon::rel(mo(j), base.mean_obs[j], 1e-10L), "multi:mean-observation", mon::str(what, ": mean_observation ", mon::vec(mo)));
        }
        for (int q = 0; q < 3; q++) {
            VectorXd v = random_query(r, xs, d);
            ref::V rv = ref::tov(v);
            VectorXd m = gp.mu(v), s = gp.sigma(v), qm, qs;
            std::tie(qm, qs) = gp.query(v);
            if (!mon::check(m.size() == o && s.size() == o && qm.size() == o && qs.size() == o, "multi:size", what + ": predictions of the wrong size"))
                return;
            for (int i = 0; i < o; i++) {
                const ref::GP& g = fitted[i];
                Tol t = tol(g);
                if (!t.use) {
                    mon::event("skipped_ill_conditioned");
                    continue;
                }
                mon::evaluation();
                ref::T rm = g.mu(rv)[i], rs = std::max((ref::T)0, g.var(rv)) + g.noise;
                if (!xs.empty() && g.var(rv) < 0.99L * g.k(rv, rv))
                    mon::event("informative_query");
                ref::T f = g.kind == ref::LIN ? 1 + g.k(rv, rv) / std::max(g.kmax, (ref::T)1e-3) : 1;
                if (!mon::check(mon::near(m(i), rm, f * t.mu + 1e-10L * std::fabs(rm)) && mon::near(qm(i), rm, f * t.mu + 1e-10L * std::fabs(rm)), "multi:mu", mon::str(what, ": output ", i, " mu = ", m(i), " query = ", qm(i), " but an independent GP gives ", (double)rm)))
                    return;
                if (!mon::check(mon::near(s(i), rs, f * t.var) && mon::near(qs(i), rs, f * t.var), "multi:sigma", mon::str(what, ": output ", i, " sigma = ", s(i), " query = ", qs(i), " but an independent GP gives ", (double)rs)))
                    return;
            }
        }
    }
};

template <template <typename, typename, typename, typename> class G, typename K, typename Mn>
void one(mon::Rng& r)
{
    Multi<G, K, Mn> m(r);
    m.verify();
    int steps = r.integer(3, 14);
    for (int s = 0; s < steps; s++) {
        m.step();
        mon::event("steps");
        auto nv = mon::S().nviol;
        m.verify();
        mon::distinct(mon::Hash().add(hash_of(m.base)).add(mon::hash_str(m.hist)).h);
        if (nv != mon::S().nviol)
            return;
    }
    mon::sample(m.hist);
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
#if COMBO == 0
        c % 2 ? one<limbo::model::GP, M52, Data>(r) : one<limbo::model::SparsifiedGP, SE, User>(r);
#elif COMBO == 1
        c % 2 ? one<limbo::model::GP, SE, ArdData>(r) : one<limbo::model::GP, Exp, Const>(r);
#elif COMBO == 2
        c % 2 ? one<limbo::model::GP, M32, Null>(r) : one<limbo::model::GP, Lin, ArdUser>(r);
#else
        c % 2 ? one<limbo::model::SparsifiedGP, M52, Data>(r) : one<limbo::model::SparsifiedGP, Exp, ArdData>(r);
#endif
    });
    return mon::finish();
}
