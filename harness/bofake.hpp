// recording components for the Bayesian optimisers
#ifndef VERIF_BOFAKE_HPP
#define VERIF_BOFAKE_HPP
#include "mon.hpp"
#include <Eigen/Core>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/grid_sampling.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/init/no_init.hpp>
#include <limbo/init/random_sampling.hpp>
#include <limbo/init/random_sampling_grid.hpp>
#include <limbo/stop/max_iterations.hpp>
#include <limbo/stop/max_predicted_value.hpp>

namespace fk {
    using Eigen::VectorXd;
    typedef std::vector<VectorXd> Vs;
    struct Set {
        int dim_in = 1, dim_out = 1, iterations = 5, hp_period = -1, samples = 5, bins = 3;
        bool bounded = true, stats = false;
        double ratio = 0.9;
    };
    inline Set& set()
    {
        static Set s;
        return s;
    }
    struct Params {
        struct bayes_opt_bobase {
            static bool stats_enabled() { return set().stats; }
            static bool bounded() { return set().bounded; }
        };
        struct bayes_opt_boptimizer {
            static int hp_period() { return set().hp_period; }
        };
        struct init_randomsampling {
            static int samples() { return set().samples; }
        };
        struct init_lhs {
            static int samples() { return set().samples; }
        };
        struct init_randomsamplinggrid {
            static int samples() { return set().samples; }
            static int bins() { return set().bins; }
        };
        struct init_gridsampling {
            static int bins() { return set().bins; }
        };
        struct stop_maxiterations {
            static int iterations() { return set().iterations; }
        };
        struct stop_maxpredictedvalue {
            static double ratio() { return set().ratio; }
        };
        struct opt_gridsearch {
            static int bins() { return 4; }
        };
    };
    enum Kind { STOP,
        ACQUI,
        OPT,
        EVAL,
        FAIL,
        STAT,
        ADD,
        COMPUTE,
        NEWMODEL,
        HP,
        INIT,
        AEVAL };
    inline const char* kname(int k)
    {
        static const char* n[] = {"stop", "acqui", "opt", "eval", "fail", "stat", "add", "compute", "newmodel", "hp", "init", "aeval"};
        return n[k];
    }
    struct Ev {
        Kind k;
        int id = 0; // which statistic / criterion; iteration for ACQUI
        VectorXd x, y;
        bool flag = false;
        size_t n = 0; // size of the model / of the records
    };
    inline std::vector<Ev>& tr()
    {
        static std::vector<Ev> t;
        return t;
    }
    inline Ev& rec(Kind k, int id = 0)
    {
        tr().push_back(Ev());
        tr().back().k = k;
        tr().back().id = id;
        return tr().back();
    }
    // ---- model
    struct Model {
        int din = -1, dout = -1;
        Vs X, Y;
        int hp = 0;
        Model() {}
        Model(int i, int o) : din(i), dout(o) { rec(NEWMODEL); }
        void compute(const Vs& x, const Vs& y)
        {
            X = x;
            Y = y;
            din = x[0].size();
            dout = y[0].size();
            rec(COMPUTE).n = X.size();
        }
        void add_sample(const VectorXd& x, const VectorXd& y)
        {
            X.push_back(x);
            Y.push_back(y);
            Ev& e = rec(ADD);
            e.x = x;
            e.y = y;
            e.n = X.size();
        }
        void optimize_hyperparams()
        {
            hp++;
            rec(HP).n = X.size();
        }
        int dim_in() const { return din; }
        int dim_out() const { return dout; }
        VectorXd mu(const VectorXd& x) const { return VectorXd::Constant(std::max(1, dout), x.sum()); }
    };
    // what the model must contain when it is used
    inline std::function<void(const Model&)>& onuse()
    {
        static std::function<void(const Model&)> f;
        return f;
    }
    template <typename M = Model>
    struct Acqui {
        const M& m;
        int it;
        Acqui(const M& model, int iteration = 0) : m(model), it(iteration)
        {
            Ev& e = rec(ACQUI, iteration);
            e.n = m.X.size();
            if (onuse())
                onuse()(m);
        }
        size_t dim_in() const { return m.dim_in(); }
        size_t dim_out() const { return m.dim_out(); }
        template <typename A>
        limbo::opt::eval_t operator()(const VectorXd& x, const A& afun, bool grad) const
        {
            Ev& e = rec(AEVAL);
            e.x = x;
            e.id = (int)m.X.size();
            return limbo::opt::no_grad(afun(VectorXd::Constant(set().dim_out, x.sum())));
        }
    };
    inline mon::Rng& optrng()
    {
        static mon::Rng r(7);
        return r;
    }
    struct Opt {
        template <typename F>
        VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
        {
            f(init, false);
            VectorXd r(init.size());
            for (int i = 0; i < r.size(); i++)
                r(i) = optrng().coin(0.1) ? optrng().integer(0, 1) : optrng().unit();
            Ev& e = rec(OPT);
            e.x = init;
            e.y = r;
            e.flag = bounded;
            return r;
        }
    };
    inline std::function<void(int, const std::function<void()>&)>& onstat()
    {
        static std::function<void(int, const std::function<void()>&)> f;
        return f;
    }
    struct StatView {
        size_t ns, no;
        int cur, tot;
        VectorXd x, y;
    };
    inline StatView& sv()
    {
        static StatView s;
        return s;
    }
    template <int I>
    struct Stat {
        int calls = 0;
        template <typename BO, typename A>
        void operator()(const BO& bo, const A&)
        {
            calls++;
            Ev& e = rec(STAT, I);
            e.n = bo.samples().size();
            e.flag = bo.samples().size() == bo.observations().size();
            if (!bo.samples().empty()) {
                e.x = bo.samples().back();
                e.y = bo.observations().back();
            }
        }
    };
    // scripted stopping criteria
    inline std::vector<std::function<bool(int cur, int tot, size_t n)>>& crit()
    {
        static std::vector<std::function<bool(int, int, size_t)>> c(3);
        return c;
    }
    template <int I>
    struct Crit {
        template <typename BO, typename A>
        bool operator()(const BO& bo, const A&) const
        {
            bool r = crit()[I] ? crit()[I](bo.current_iteration(), bo.total_iterations(), bo.samples().size()) : false;
            Ev& e = rec(STOP, I);
            e.flag = r;
            e.n = bo.samples().size();
            return r;
        }
    };
    // initialisation with a list of points chosen by the harness
    inline Vs& initpts()
    {
        static Vs v;
        return v;
    }
    struct Init {
        template <typename S, typename A, typename O>
        void operator()(const S& s, const A&, O& o) const
        {
            rec(INIT);
            for (auto& p : initpts())
                o.eval_and_add(s, p);
        }
    };
    struct UserError : std::runtime_error {
        int tag;
        UserError(int t) : std::runtime_error("user"), tag(t) {}
    };
    // the user's function; fails at chosen calls
    struct Fun {
        static size_t dim_in() { return set().dim_in; }
        static size_t dim_out() { return set().dim_out; }
        static int& calls()
        {
            static int c = 0;
            return c;
        }
        static uint64_t& salt()
        {
            static uint64_t s = 0;
            return s;
        }
        static int& levels() // >0: few different values (ties)
        {
            static int l = 0;
            return l;
        }
        static std::map<int, int>& faults() // call -> 1 throw, 2 nan, 3 inf, 4 -inf, 5 nan in the last component
        {
            static std::map<int, int> f;
            return f;
        }
        static std::function<void()>& oncall()
        {
            static std::function<void()> f;
            return f;
        }
        static VectorXd value(const VectorXd& x)
        {
            mon::Rng r(salt() ^ mon::Hash().addv(x).h);
            VectorXd y(set().dim_out);
            for (int i = 0; i < y.size(); i++)
                y(i) = levels() > 0 ? r.integer(-levels(), levels()) : r.range(-5, 3);
            return y;
        }
        VectorXd operator()(const VectorXd& x) const
        {
            int k = calls()++;
            if (oncall())
                oncall()();
            auto it = faults().find(k);
            VectorXd y = value(x);
            if (it != faults().end()) {
                Ev& e = rec(FAIL, it->second);
                e.x = x;
                switch (it->second) {
                case 1: throw UserError(k);
                case 2: y.setConstant(NAN); break;
                case 3: y(0) = INFINITY; break;
                case 4: y(y.size() - 1) = -INFINITY; break;
                case 5: y(y.size() - 1) = NAN; break;
                }
                e.y = y;
                return y;
            }
            Ev& e = rec(EVAL);
            e.x = x;
            e.y = y;
            return y;
        }
    };
    // aggregators
    struct Agg {
        int kind = 0;
        double operator()(const VectorXd& y) const
        {
            switch (kind) {
            case 0: return y(0);
            case 1: return y(y.size() - 1);
            case 2: return y.sum();
            case 3: return -y.squaredNorm();
            case 4: return y.minCoeff();
            default: return y(0) - 0.5 * y(y.size() - 1);
            }
        }
    };
} // namespace fk
#endif
