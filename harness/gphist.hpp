// Random histories of public GP operations with a model of what they mean.
#ifndef VERIF_GPHIST_HPP
#define VERIF_GPHIST_HPP
#include "gpkit.hpp"
#include <boost/filesystem.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <memory>

namespace kit {
    template <typename K, typename Mn>
    struct Machine {
        typedef limbo::model::GP<Params, K, Mn> GP;
        enum { kind = KindOf<K>::v, mean = MeanOf<Mn>::v };
        mon::Rng& r;
        GP gp;
        ref::GP g;
        std::string hist;
        std::vector<std::pair<std::shared_ptr<GP>, ref::GP>> old; // copies which must not change
        int maxn;
        double scale, off;

        Machine(mon::Rng& r_, int maxn_ = 22) : r(r_), maxn(maxn_)
        {
            random_cfg(r, kind);
            int d = r.integer(1, 5), o = r.integer(1, 3);
            scale = r.logrange(0.05, 50);
            off = r.coin() ? 0 : r.range(-20, 20);
            g = blank(kind, mean, d, o);
            gp = GP(d, o);
            if (r.coin(0.2)) {
                gp = GP(); // dimensions discovered from the data
                do_compute(r.integer(1, 6));
            }
            g.fit();
        }
        void note(const std::string& s)
        {
            hist += s;
            if (hist.size() > 700)
                hist = "..." + hist.substr(hist.size() - 690);
            mon::event("op:" + s.substr(0, s.find('(')));
        }
        void gen(int n, Vs& x, Vs& y)
        {
            x = random_points(r, n, g.dim_in);
            y.clear();
            for (int i = 0; i < n; i++)
                y.push_back(random_obs(r, g.dim_out, scale, off));
        }
        void set_data(const Vs& x, const Vs& y)
        {
            g.X.clear();
            g.Y.clear();
            for (auto& v : x)
                g.X.push_back(ref::tov(v));
            for (auto& v : y)
                g.Y.push_back(ref::tov(v));
        }
        void do_compute(int n, bool kernel = true)
        {
            Vs x, y;
            gen(n, x, y);
            gp.compute(x, y, kernel);
            set_data(x, y);
            note(mon::str("compute(", n, kernel ? "" : ",nokernel", ") "));
        }
        void do_add()
        {
            Vs x, y;
            gen(1, x, y);
            if (!g.X.empty() && r.coin(0.3)) { // duplicates / near duplicates of known samples
                auto& p = g.X[r.integer(0, (int)g.X.size() - 1)];
                for (int j = 0; j < g.dim_in; j++)
                    x[0](j) = (double)p[j] + (r.coin() ? 0 : 1e-3 * r.gauss());
            }
            gp.add_sample(x[0], y[0]);
            g.X.push_back(ref::tov(x[0]));
            g.Y.push_back(ref::tov(y[0]));
            note("add() ");
        }
        void set_kernel_hp()
        {
            VectorXd p = random_hp(r, kind, g.dim_in);
            gp.kernel_function().set_h_params(p);
            set_kernel(g, p);
        }
        void set_mean_hp()
        {
            if (ref::nmp(mean, g.dim_out) == 0)
                return;
            VectorXd p = random_mp(r, mean, g.dim_out);
            gp.mean_function().set_h_params(p);
            set_mean(g, p);
        }
        template <typename A>
        void save_load(bool recompute)
        {
            std::string dir = (mon::S().scratch.empty() ? std::string(".") : mon::S().scratch) + "/arch";
            gp.template save<A>(dir);
            int where = r.integer(0, 2);
            if (where == 0) {
                gp.template load<A>(dir, recompute);
                note(recompute ? "save-load-self(1) " : "save-load-self(0) ");
            }
            else {
                GP other;
                if (where == 2) { // a used model, with other data, other sizes and a warm cache
                    other = GP(g.dim_in, g.dim_out);
                    Vs x, y;
                    gen(r.integer(1, 8), x, y);
                    other.compute(x, y);
                    other.compute_inv_kernel();
                    other.compute_log_lik();
                }
                other.template load<A>(dir, recompute);
                gp = other;
                note(recompute ? "save-load-other(1) " : "save-load-other(0) ");
            }
            boost::filesystem::remove_all(dir);
            if (std::is_same<A, limbo::serialize::TextArchive>::value)
                rounded();
        }
        // the text format keeps 15 significant digits: check that, then take the loaded values as the data
        void rounded()
        {
            bool ok = gp.samples().size() == g.X.size();
            auto ys = gp.observations();
            auto same = [&](ref::T& a, double b) {
                ok = ok && std::fabs(a - (ref::T)b) <= 1e-14L * std::fabs(a) + 1e-15L;
                a = b;
            };
            for (size_t i = 0; ok && i < g.X.size(); i++) {
                ok = gp.samples()[i].size() == g.dim_in && ys[i].size() == g.dim_out;
                for (int j = 0; ok && j < g.dim_in; j++)
                    same(g.X[i][j], gp.samples()[i](j));
                for (int j = 0; ok && j < g.dim_out; j++)
                    same(g.Y[i][j], ys[i](j));
            }
            VectorXd hp = gp.kernel_function().h_params(), mp = gp.mean_function().h_params();
            ok = ok && hp.size() == (long)g.kp.size() + (cfg().opt_noise ? 1 : 0) && mp.size() == (long)g.mp.size();
            for (size_t i = 0; ok && i < g.kp.size(); i++)
                same(g.kp[i], hp(i));
            for (size_t i = 0; ok && i < g.mp.size(); i++)
                same(g.mp[i], mp(i));
            ok = ok && std::fabs(gp.kernel_function().noise() - (double)g.noise) <= 1e-12 * (double)g.noise;
            g.noise = gp.kernel_function().noise();
            mon::check(ok, "history:text-archive", "data or parameters changed by more than rounding through a text archive, after " + hist);
        }
        // queries whose only effect may be on caches
        void warm()
        {
            if (g.X.empty())
                return;
            int k = r.integer(0, 6);
            if (k == 0)
                gp.compute_inv_kernel();
            else if (k == 1)
                gp.compute_log_lik();
            else if (k == 2)
                gp.compute_log_loo_cv();
            else if (k == 3)
                gp.compute_kernel_grad_log_lik();
            else if (k == 4)
                gp.compute_kernel_grad_log_loo_cv();
            else if (k == 5 && ref::nmp(mean, g.dim_out) > 0)
                gp.compute_mean_grad_log_lik();
            else
                return;
            note(mon::str("warm", k, "() "));
        }
        void step()
        {
            int n = g.X.size();
            if (n >= maxn) {
                do_compute(r.integer(1, 6));
                return g.fit();
            }
            if (n == 0) {
                r.coin(0.6) ? do_compute(r.integer(1, 10)) : do_add();
                return g.fit();
            }
            switch (r.integer(0, 13)) {
            case 0:
            case 1:
            case 2:
            case 3: do_add(); break;
            case 4: do_compute(r.integer(1, 10)); break;
            case 5:
                set_kernel_hp();
                gp.recompute(r.coin(), true);
                note("kernel-hp+recompute(k) ");
                break;
            case 6:
                set_mean_hp();
                gp.recompute(true, r.coin());
                note("mean-hp+recompute(m) ");
                break;
            case 7:
                set_kernel_hp();
                set_mean_hp();
                if (r.coin(0.3))
                    gp.recompute();
                else
                    gp.recompute(true, true);
                note("both-hp+recompute(km) ");
                break;
            case 8: {
                bool a = r.coin(), b = r.coin();
                gp.recompute(a, b);
                note(mon::str("recompute(", a, ",", b, ") "));
                break;
            }
            case 9: {
                bool a = r.coin();
                r.coin() ? save_load<limbo::serialize::BinaryArchive>(a) : save_load<limbo::serialize::TextArchive>(a);
                break;
            }
            case 10: { // continue with a copy; the original must stay as it is
                if (old.size() < 2)
                    old.push_back({std::make_shared<GP>(gp), g});
                GP c(gp);
                do_on_copy(c);
                note("copy() ");
                break;
            }
            case 11: {
                // data now, kernel later (what BOptimizer does before optimising hyper-parameters)
                do_compute(r.integer(1, 10), false);
                if (r.coin())
                    set_kernel_hp();
                gp.recompute(r.coin(), true);
                note("recompute(late) ");
                break;
            }
            case 12: // hyper-parameters before data
                set_kernel_hp();
                set_mean_hp();
                do_compute(r.integer(1, 8));
                break;
            default: { // another problem: other dimensions
                int d = r.integer(1, 5), o = r.integer(1, 3);
                if (d != g.dim_in) {
                    g.dim_in = d;
                    g.kp = default_kp(kind, d);
                    g.noise = cfg().noise;
                }
                if (o != g.dim_out) {
                    g.dim_out = o;
                    g.mp = default_mp(mean, o);
                }
                do_compute(r.integer(1, 8));
                note("redim() ");
                // the parameters of a model for another problem start afresh; take them as they are
                sync();
                break;
            }
            }
            g.fit();
        }
        void sync()
        {
            if ((int)gp.kernel_function().h_params_size() == ref::nkp(kind, g.dim_in, g.se_k) + (cfg().opt_noise ? 1 : 0)) {
                VectorXd p = gp.kernel_function().h_params();
                set_kernel(g, p);
                g.noise = gp.kernel_function().noise();
            }
        }
        void do_on_copy(GP& c)
        {
            // disturb the copy, and drop it
            if (c.nb_samples() > 0) {
                Vs x, y;
                gen(1, x, y);
                c.add_sample(x[0], y[0]);
                c.kernel_function().set_h_params(random_hp(r, kind, g.dim_in));
                c.recompute(true, true);
            }
        }
    };
} // namespace kit
#endif
