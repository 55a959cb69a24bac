// C29: the constrained optimiser, with recording components
#include "bofake.hpp"
#include <limbo/acqui/ucb.hpp>
#include <limbo/limbo.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
using namespace fk;

static int& ncon()
{
    static int n = 1;
    return n;
}
struct CP : public fk::Params {
    struct bayes_opt_cboptimizer {
        static int hp_period() { return set().hp_period; }
        static bool bounded() { return set().bounded; }
    };
    struct kernel : limbo::defaults::kernel {
        BO_PARAM(double, noise, 0.01);
    };
    struct kernel_exp : limbo::defaults::kernel_exp {
    };
    struct kernel_squared_exp_ard : limbo::defaults::kernel_squared_exp_ard {
    };
    struct mean_constant : limbo::defaults::mean_constant {
    };
    struct acqui_eci : limbo::defaults::acqui_eci {
    };
    struct opt_rprop : limbo::defaults::opt_rprop {
        BO_PARAM(int, iterations, 20);
    };
};
// call log of one model
struct Log {
    Vs X, Y;
    int computes = 0, adds = 0, hps = 0, news = 0;
    size_t hp_at = 0;
    VectorXd lx, ly;
};
static Log& lg(int i)
{
    static Log l[2];
    return l[i];
}
template <int I>
struct RM {
    int din = -1, dout = -1;
    Vs X, Y;
    RM() {}
    RM(int i, int o) : din(i), dout(o) { lg(I).news++; }
    void compute(const Vs& x, const Vs& y)
    {
        X = x;
        Y = y;
        din = x[0].size();
        dout = y[0].size();
        lg(I).computes++;
        sync();
    }
    void add_sample(const VectorXd& x, const VectorXd& y)
    {
        X.push_back(x);
        Y.push_back(y);
        if (dout < 0)
            dout = y.size();
        lg(I).adds++;
        lg(I).lx = x;
        lg(I).ly = y;
        sync();
    }
    void optimize_hyperparams()
    {
        lg(I).hps++;
        lg(I).hp_at = X.size();
    }
    void sync()
    {
        lg(I).X = X;
        lg(I).Y = Y;
    }
    int dim_in() const { return din; }
    int dim_out() const { return dout; }
    VectorXd mu(const VectorXd& x) const { return VectorXd::Constant(std::max(1, dout), x.sum()); }
};
struct Watch {
    std::function<void(const RM<0>&, const RM<1>&, int)> f;
};
static Watch& watch()
{
    static Watch w;
    return w;
}
struct RA {
    const RM<0>& m;
    RA(const RM<0>& model, const RM<1>& cmodel, int iteration = 0) : m(model)
    {
        rec(ACQUI, iteration);
        if (watch().f)
            watch().f(model, cmodel, iteration);
    }
    size_t dim_in() const { return m.dim_in(); }
    size_t dim_out() const { return m.dim_out(); }
    template <typename A>
    limbo::opt::eval_t operator()(const VectorXd& x, const A& afun, bool) const { return limbo::opt::no_grad(afun(m.mu(x))); }
};
struct CFun {
    static size_t dim_in() { return set().dim_in; }
    static size_t dim_out() { return set().dim_out; }
    static size_t nb_constraints() { return ncon(); }
    static Vs& X()
    {
        static Vs v;
        return v;
    }
    static Vs& Y()
    {
        static Vs v;
        return v;
    }
    static double& pfeas()
    {
        static double p = 0.5;
        return p;
    }
    // objective outputs, then one output per constraint: positive when satisfied, zero when not
    static VectorXd value(const VectorXd& x)
    {
        mon::Rng r(Fun::salt() ^ mon::Hash().addv(x).h);
        VectorXd y(set().dim_out + ncon());
        for (int i = 0; i < set().dim_out; i++)
            y(i) = Fun::levels() > 0 ? r.integer(-Fun::levels(), Fun::levels()) : r.range(-5, 3);
        for (int i = 0; i < ncon(); i++)
            y(set().dim_out + i) = r.coin(pfeas()) ? (r.coin() ? 1. : r.range(0.1, 3)) : 0.;
        return y;
    }
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y = value(x);
        X().push_back(x);
        Y().push_back(y);
        rec(EVAL).x = x;
        return y;
    }
};
static bool feasible(const VectorXd& y)
{
    for (int i = 0; i < ncon(); i++)
        if (!(y(set().dim_out + i) > 0))
            return false;
    return true;
}
static Vs head(const Vs& y)
{
    Vs v;
    for (auto& a : y)
        v.push_back(a.head(set().dim_out));
    return v;
}
static Vs tail(const Vs& y)
{
    Vs v;
    for (auto& a : y)
        v.push_back(a.tail(ncon()));
    return v;
}
template <typename BO>
bool best(const BO& bo, mon::Rng& r, const std::string& what)
{
    Agg ag;
    ag.kind = r.integer(0, 5);
    const Vs &X = CFun::X(), &Y = CFun::Y();
    bool any = false;
    double mx = -INFINITY;
    for (auto& y : Y)
        any = any || feasible(y);
    for (auto& y : Y)
        if (!any || feasible(y))
            mx = std::max(mx, ag(y.head(set().dim_out)));
    mon::event(any ? "best:feasible" : "best:none_feasible");
    VectorXd bo_ = bo.best_observation(ag), bs = bo.best_sample(ag);
    bool oko = false, oks = false;
    for (size_t i = 0; i < X.size(); i++)
        if ((!any || feasible(Y[i])) && ag(Y[i].head(set().dim_out)) == mx) {
            oko = oko || VectorXd(Y[i].head(set().dim_out)) == bo_;
            oks = oks || X[i] == bs;
        }
    // sample and observation belong together
    bool pair = false;
    for (size_t i = 0; i < X.size(); i++)
        pair = pair || (X[i] == bs && VectorXd(Y[i].head(set().dim_out)) == bo_);
    mon::check(oko, "cbo:best-observation", mon::str(what, ": best_observation ", mon::vec(bo_), " but the highest ", any ? "feasible " : "", "value is ", mx, " among ", X.size()));
    mon::check(oks, "cbo:best-sample", mon::str(what, ": best_sample ", mon::vec(bs), " does not give the best ", any ? "feasible " : "", "value ", mx));
    mon::check(pair || !oko || !oks, "cbo:best-pair", what + ": best_sample and best_observation belong to different evaluations");
    // the default aggregator
    bs = bo.best_sample();
    mx = -INFINITY;
    for (auto& y : Y)
        if (!any || feasible(y))
            mx = std::max(mx, y(0));
    oks = false;
    for (size_t i = 0; i < X.size(); i++)
        oks = oks || (X[i] == bs && (!any || feasible(Y[i])) && Y[i](0) == mx);
    return mon::check(oks, "cbo:best-sample-default", what + ": best_sample() is not the best feasible sample");
}

typedef boost::fusion::vector<Stat<0>, Stat<1>> Stats;
typedef boost::fusion::vector<limbo::stop::MaxIterations<CP>, Crit<0>> Stops;
using limbo::experimental::constraint_modelfun;
using limbo::experimental::bayes_opt::CBOptimizer;
using namespace limbo;
typedef CBOptimizer<CP, modelfun<RM<0>>, constraint_modelfun<RM<1>>, acquifun<RA>, acquiopt<fk::Opt>, initfun<fk::Init>, statsfun<Stats>, stopcrit<Stops>> CB;

void one(mon::Rng& r)
{
    set() = Set();
    set().dim_in = r.integer(1, 4);
    set().dim_out = r.integer(1, 3);
    set().bounded = r.coin(0.8);
    set().iterations = r.integer(0, 8);
    set().hp_period = r.coin(0.3) ? -1 : r.integer(1, 4);
    ncon() = r.integer(0, 3);
    CFun::pfeas() = r.coin(0.2) ? 0. : r.coin(0.2) ? 1. : r.range(0.2, 0.9);
    Fun::salt() = r.u64();
    Fun::levels() = r.coin(0.4) ? r.integer(1, 3) : 0;
    optrng() = mon::Rng(r.u64());
    CFun::X().clear();
    CFun::Y().clear();
    tr().clear();
    lg(0) = lg(1) = Log();
    CB bo;
    std::string what = mon::str("in=", set().dim_in, " out=", set().dim_out, " constraints=", ncon(), " hp_period=", set().hp_period, " ");
    int total = 0, runs = r.integer(1, 4);
    for (int k = 0; k < runs; k++) {
        bool reset = k == 0 || r.coin(0.4);
        int ni = r.coin(0.15) ? 0 : r.integer(1, 5);
        initpts().clear();
        for (int i = 0; i < ni; i++) {
            VectorXd v(set().dim_in);
            for (int j = 0; j < v.size(); j++)
                v(j) = r.unit();
            initpts().push_back(v);
        }
        int quit = r.coin(0.3) ? r.integer(0, 6) : 1000;
        crit()[0] = [&](int c, int, size_t) { return c >= quit; };
        set().iterations = r.integer(0, 8);
        what += mon::str(reset ? "run" : "continue", "(init ", ni, ", ", set().iterations, " iterations", quit < 1000 ? mon::str(", quits at ", quit) : "", ") ");
        if (reset) {
            total = 0;
            CFun::X().clear();
            CFun::Y().clear();
        }
        bool doinit = total == 0;
        size_t n0 = CFun::X().size();
        size_t start = n0 + (doinit ? ni : 0);
        int want = std::min(set().iterations, quit), it = 0;
        tr().clear();
        Log l0 = lg(0), l1 = lg(1);
        auto nv = mon::S().nviol;
        watch().f = [&](const RM<0>& m, const RM<1>& c, int iteration) {
            mon::evaluation();
            mon::check(iteration == it, "cbo:iteration", mon::str(what, ": the acquisition function got iteration ", iteration, " instead of ", it));
            it++;
            mon::check(m.X == CFun::X() && m.Y == head(CFun::Y()), "cbo:objective-model", mon::str(what, ": at iteration ", iteration, " the objective model holds ", m.X.size(), " pairs which are not the ", CFun::X().size(), " evaluated ones with their objective outputs"));
            if (ncon() > 0)
                mon::check(c.X == CFun::X() && c.Y == tail(CFun::Y()), "cbo:constraint-model", mon::str(what, ": at iteration ", iteration, " the constraint model holds ", c.X.size(), " pairs which are not the ", CFun::X().size(), " evaluated ones with their constraint outputs"));
            mon::check(bo.samples() == CFun::X() && bo.observations() == CFun::Y(), "cbo:records", what + ": samples and observations are not the evaluated ones");
            mon::check(bo.current_iteration() == iteration, "cbo:counter", what + ": current_iteration");
            if (CFun::X().empty())
                mon::check(m.dim_in() == set().dim_in && m.dim_out() == set().dim_out && (ncon() == 0 || (c.dim_in() == set().dim_in && c.dim_out() == ncon())), "cbo:empty-model", what + ": a model without data has other dimensions than the function");
        };
        bo.optimize(CFun(), FirstElem(), reset);
        watch().f = nullptr;
        total += it;
        mon::check(it == want, "cbo:iterations", mon::str(what, ": ", it, " iterations instead of ", want));
        mon::check(CFun::X().size() == start + it, "cbo:evaluations", mon::str(what, ": ", CFun::X().size() - n0, " evaluations for ", it, " iterations and ", doinit ? ni : 0, " initial points"));
        mon::check(bo.samples() == CFun::X() && bo.observations() == CFun::Y(), "cbo:records", what + ": the final records are not the evaluated ones");
        mon::check(bo.current_iteration() == it && bo.total_iterations() == total, "cbo:counters", mon::str(what, ": counters ", bo.current_iteration(), "/", bo.total_iterations(), " instead of ", it, "/", total));
        if (!CFun::X().empty()) {
            mon::check(lg(0).X == CFun::X() && lg(0).Y == head(CFun::Y()), "cbo:final-model", what + ": the objective model does not hold the evaluated data in the end");
            mon::check(ncon() == 0 || (lg(1).X == CFun::X() && lg(1).Y == tail(CFun::Y())), "cbo:final-constraint-model", what + ": the constraint model does not hold the evaluated data in the end");
        }
        int hp = set().hp_period > 0 ? it / set().hp_period : 0;
        mon::check(lg(0).hps - l0.hps == hp, "cbo:hp", mon::str(what, ": ", lg(0).hps - l0.hps, " hyper-parameter optimisations in ", it, " iterations"));
        mon::check(lg(1).hps - l1.hps == (ncon() > 0 ? hp : 0), "cbo:constraint-hp", mon::str(what, ": ", lg(1).hps - l1.hps, " hyper-parameter optimisations of the constraint model in ", it, " iterations"));
        int st[2] = {0, 0}, op = 0;
        for (auto& e : tr()) {
            if (e.k == STAT)
                st[e.id]++;
            if (e.k == OPT) {
                op++;
                mon::check(e.flag == set().bounded && e.x.size() == set().dim_in && (!set().bounded || (e.x.minCoeff() >= 0 && e.x.maxCoeff() <= 1)), "cbo:maximiser", what + ": the acquisition maximiser got other bounds, dimension or starting point");
                size_t idx = start + op - 1;
                mon::check(idx < CFun::X().size() && CFun::X()[idx] == e.y, "cbo:proposal", what + ": the evaluated point is not the one the maximiser returned");
            }
        }
        mon::check(op == it && st[0] == it && st[1] == it, "cbo:protocol", mon::str(what, ": ", op, " maximisations, ", st[0], "/", st[1], " calls of the statistics in ", it, " iterations"));
        mon::event(reset ? "runs:reset" : "runs:continued");
        mon::event(mon::str("constraints ", ncon()));
        mon::event("iterations", it);
        mon::distinct(mon::Hash().add(Fun::salt()).add(k).h);
        if (nv != mon::S().nviol)
            return;
        if (!CFun::X().empty())
            for (int q = 0; q < 3; q++)
                best(bo, r, what);
        if (nv != mon::S().nviol)
            return;
    }
    mon::sample(what);
}

// the real models and the expected constrained improvement: data of the models, bounds and best sample
struct RFun : CFun {
};
typedef limbo::model::GP<CP, limbo::kernel::Exp<CP>, limbo::mean::Constant<CP>, limbo::model::gp::KernelLFOpt<CP>> RG;
typedef CBOptimizer<CP, acquiopt<fk::Opt>, stopcrit<Stops>, modelfun<RG>, statsfun<Stats>, acquifun<limbo::experimental::acqui::ECI<CP, RG, RG>>, initfun<fk::Init>, constraint_modelfun<RG>> RB;
void real(mon::Rng& r)
{
    set() = Set();
    set().dim_in = r.integer(1, 3);
    set().dim_out = 1;
    set().iterations = r.integer(1, 6);
    set().hp_period = r.coin(0.5) ? -1 : r.integer(1, 3);
    ncon() = 1; // ECI aggregates one constraint prediction
    CFun::pfeas() = r.range(0, 1);
    Fun::salt() = r.u64();
    Fun::levels() = 0;
    optrng() = mon::Rng(r.u64());
    CFun::X().clear();
    CFun::Y().clear();
    tr().clear();
    crit()[0] = nullptr;
    initpts().clear();
    for (int i = r.integer(1, 5); i > 0; i--)
        initpts().push_back(0.5 * (VectorXd::Random(set().dim_in) + VectorXd::Ones(set().dim_in)));
    RB bo;
    std::string what = mon::str("real models, in=", set().dim_in, " ");
    bo.optimize(CFun());
    mon::evaluation();
    mon::event("real_runs");
    mon::check(bo.model().samples() == CFun::X() && bo.samples() == CFun::X() && bo.observations() == CFun::Y(), "cbo:real-records", what + ": model or records differ from what was evaluated");
    Vs hy = head(CFun::Y());
    mon::check(bo.model().observations() == hy, "cbo:real-observations", what + ": the observations of the objective model are not the objective outputs");
    mon::check((int)CFun::X().size() == (int)initpts().size() + set().iterations, "cbo:real-evaluations", what + ": number of evaluations");
    best(bo, r, what);
    mon::distinct(mon::Hash().add(Fun::salt()).add(77).h);
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) { c % 5 ? one(r) : real(r); });
    return mon::finish();
}
