// C14: NLOpt wrappers
#include "mon.hpp"
#include <Eigen/Core>
#include "optfun.hpp"
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
using namespace limbo;
using namespace of;
struct P {
    struct opt_nloptgrad {
        static int iterations() { return c().iters; }
        static double fun_tolerance() { return c().ftol; }
        static double xrel_tolerance() { return c().xtol; }
    };
    struct opt_nloptnograd {
        static int iterations() { return c().iters; }
        static double fun_tolerance() { return c().ftol; }
        static double xrel_tolerance() { return c().xtol; }
    };
};
template <nlopt::algorithm A>
using NG = opt::NLOptGrad<P, A>;
template <nlopt::algorithm A>
using NN = opt::NLOptNoGrad<P, A>;

// linear constraint a.x - b
struct Con {
    VectorXd a;
    double b = 0;
    mutable std::vector<Call>* L = nullptr;
    opt::eval_t operator()(const VectorXd& x, bool grad) const
    {
        Call cl;
        cl.x = x;
        cl.grad = grad;
        cl.v = a.dot(x) - b;
        if (L)
            L->push_back(cl);
        if (grad)
            return opt::eval_t{cl.v, a};
        return opt::no_grad(cl.v);
    }
};
struct Setup {
    const Con* ineq = nullptr;
    const Con* eq = nullptr;
    // the same optimizer has solved another problem before
    const Fn* before = nullptr;
    VectorXd before_x0;
    bool before_bounded = true;
    int seed = 0;
};
template <typename O>
VectorXd go(const Fn& f, const VectorXd& x, bool b, const Setup& s)
{
    O o;
    if (s.before) {
        o(*s.before, s.before_x0, s.before_bounded);
        log().clear();
        nlopt::srand(s.seed);
    }
    if (s.ineq || s.eq) {
        o.initialize(x.size());
        if (s.ineq)
            o.add_inequality_constraint(*s.ineq);
        if (s.eq)
            o.add_equality_constraint(*s.eq);
    }
    return o(f, x, b);
}
template <nlopt::algorithm A>
struct AlgOf {
    static const nlopt::algorithm v = A;
};
// the same problem given to NLopt directly
double raw_f(const std::vector<double>& x, std::vector<double>& g, void* d)
{
    const Fn& f = *(const Fn*)d;
    VectorXd v = VectorXd::Map(x.data(), x.size());
    auto r = f(v, !g.empty());
    if (!g.empty())
        for (size_t i = 0; i < g.size(); i++)
            g[i] = (*r.second)(i);
    return r.first;
}
VectorXd raw(nlopt::algorithm a, const Fn& f, const VectorXd& x0, bool bounded)
{
    nlopt::opt o(a, x0.size());
    o.set_max_objective(raw_f, (void*)&f);
    o.set_maxeval(c().iters);
    o.set_ftol_rel(c().ftol);
    o.set_xtol_rel(c().xtol);
    std::vector<double> x(x0.size());
    for (size_t i = 0; i < x.size(); i++)
        x[i] = bounded ? std::min(1., std::max(0., x0(i))) : x0(i);
    if (bounded) {
        o.set_lower_bounds(0.);
        o.set_upper_bounds(1.);
    }
    double m;
    try {
        o.optimize(x, m);
    }
    catch (std::exception&) {
    }
    return VectorXd::Map(x.data(), x.size());
}
struct Entry {
    const char* name;
    VectorXd (*run)(const Fn&, const VectorXd&, bool, const Setup&);
    bool grad;
    int slack; // evaluations allowed over the budget (a population or a line search is finished)
    double acc; // how near the optimum of a concave quadratic (0: not asserted)
    int ineq, eq;
    int strict; // accuracy asserted on every run, or as a rate over all runs
    bool local;
    nlopt::algorithm alg;
    int con; // 2: feasibility and optimum on every run, 1: feasibility on every run, 0: rates
};

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    std::vector<Entry> es = {
#if NLSET == 0
        {"LBFGS", go<NG<nlopt::LD_LBFGS>>, true, 60, 1e-3, 0, 0, 1, true, nlopt::LD_LBFGS, 0},
        {"MMA", go<NG<nlopt::LD_MMA>>, true, 0, 1e-3, 1, 0, 1, true, nlopt::LD_MMA, 1},
        {"SLSQP", go<NG<nlopt::LD_SLSQP>>, true, 0, 1e-3, 1, 1, 1, true, nlopt::LD_SLSQP, 2},
        {"CCSAQ", go<NG<nlopt::LD_CCSAQ>>, true, 0, 1e-3, 1, 0, 1, true, nlopt::LD_CCSAQ, 1},
        {"TNEWTON_PR", go<NG<nlopt::LD_TNEWTON_PRECOND_RESTART>>, true, 60, 1e-3, 0, 0, 1, true, nlopt::LD_TNEWTON_PRECOND_RESTART, 0},
        {"VAR1", go<NG<nlopt::LD_VAR1>>, true, 60, 1e-3, 0, 0, 1, true, nlopt::LD_VAR1, 0},
        {"VAR2", go<NG<nlopt::LD_VAR2>>, true, 60, 1e-3, 0, 0, 1, true, nlopt::LD_VAR2, 0},
        {"default grad", go<opt::NLOptGrad<P>>, true, 60, 1e-3, 0, 0, 1, true, nlopt::LD_LBFGS, 0},
#else
        {"DIRECT", go<NN<nlopt::GN_DIRECT>>, false, 20, 0.05, 0, 0, 1, false, nlopt::GN_DIRECT, 0},
        {"DIRECT_L", go<NN<nlopt::GN_DIRECT_L>>, false, 20, 0.05, 0, 0, 1, false, nlopt::GN_DIRECT_L, 0},
        {"DIRECT_L_RAND", go<NN<nlopt::GN_DIRECT_L_RAND>>, false, 20, 0.05, 0, 0, 1, false, nlopt::GN_DIRECT_L_RAND, 0},
        {"CRS2", go<NN<nlopt::GN_CRS2_LM>>, false, 1000, 0.05, 0, 0, 1, false, nlopt::GN_CRS2_LM, 0},
        {"ESCH", go<NN<nlopt::GN_ESCH>>, false, 0, 0, 0, 0, 1, false, nlopt::GN_ESCH, 0},
        {"ISRES", go<NN<nlopt::GN_ISRES>>, false, 0, 0, 1, 1, 1, false, nlopt::GN_ISRES, 0},
        {"COBYLA", go<NN<nlopt::LN_COBYLA>>, false, 0, 1e-2, 1, 1, 0, true, nlopt::LN_COBYLA, 0},
        {"BOBYQA", go<NN<nlopt::LN_BOBYQA>>, false, 0, 1e-3, 0, 0, 0, true, nlopt::LN_BOBYQA, 0},
        {"NELDERMEAD", go<NN<nlopt::LN_NELDERMEAD>>, false, 0, 0, 0, 0, 1, true, nlopt::LN_NELDERMEAD, 0},
        {"SBPLX", go<NN<nlopt::LN_SBPLX>>, false, 0, 1e-2, 0, 0, 0, true, nlopt::LN_SBPLX, 0},
        {"default nograd", go<opt::NLOptNoGrad<P>>, false, 20, 0.05, 0, 0, 1, false, nlopt::GN_DIRECT_L_RAND, 0},
#endif
    };
    mon::run_cases([&](long, mon::Rng& r) {
        const Entry& e = es[r.u64() % es.size()];
        int n = r.integer(1, e.grad ? 5 : 3);
        std::string nm = e.name;
        c() = Cfg();
        Setup s;
        Con ci, ce;
        std::vector<Call> Li, Le;
        Fn f = Fn::random(r, n);
        VectorXd x0(n);
        for (int i = 0; i < n; i++)
            x0(i) = r.coin(0.9) ? r.unit() : r.range(-0.5, 1.5);
        int what = r.integer(0, 3);
        if (what == 3) { // the wrapper forwards the problem, bounds, budget and tolerances as they are
            c() = Cfg::random(r);
            c().ftol = r.coin(0.5) ? -1 : r.logrange(1e-10, 0.3);
            c().xtol = r.coin(0.5) ? -1 : r.logrange(1e-10, 0.3);
            bool bounded = e.local ? r.coin(0.7) : true;
            int sd = r.integer(1, 1 << 30);
            Fn f0;
            if (r.coin(0.4)) {
                int n0 = r.coin(0.6) ? n : r.integer(1, e.grad ? 5 : 3);
                f0 = Fn::random(r, n0);
                s.before = &f0;
                s.before_x0 = VectorXd(n0);
                for (int i = 0; i < n0; i++)
                    s.before_x0(i) = r.unit();
                s.before_bounded = e.local ? r.coin(0.7) : true;
                s.seed = sd;
                mon::event(n0 != n ? "reused in another dimension" : s.before_bounded != bounded ? "reused with other bounds" : "reused");
            }
            log().clear();
            nlopt::srand(sd);
            VectorXd res = e.run(f, x0, bounded, s);
            auto A = log();
            log().clear();
            nlopt::srand(sd);
            VectorXd ref = raw(e.alg, f, x0, bounded);
            auto& B = log();
            std::string d = mon::str(nm, bounded ? " bounded " : " unbounded ", s.before ? mon::str("after ", s.before->describe(), s.before_bounded ? " bounded " : " unbounded ") : std::string(), f.describe(), " init=", mon::vec(x0), " ", c().describe());
            mon::check(A.size() == B.size(), "forward-count:" + nm, mon::str(A.size(), " evaluations, NLopt alone ", B.size(), " ", d));
            for (size_t i = 0; i < A.size() && i < B.size(); i++)
                if (A[i].x != B[i].x || A[i].grad != B[i].grad) {
                    bool nan = false;
                    for (int k = 0; k < n; k++)
                        nan |= std::isnan(B[i].x(k));
                    if (!nan)
                        mon::violation("forward-point:" + nm, mon::str("evaluation ", i, " at ", mon::vec(A[i].x), " instead of ", mon::vec(B[i].x), " ", d));
                    break;
                }
            mon::check(res == ref || ref != ref, "forward-result:" + nm, mon::str(mon::vec(res), " instead of ", mon::vec(ref), " ", d));
            mon::evaluation(A.size());
            mon::event("runs compared with NLopt alone");
            mon::event("evaluations compared with NLopt alone", A.size());
            if (c().ftol > 0 || c().xtol > 0)
                mon::event((int)A.size() < c().iters ? "stopped by a tolerance" : "tolerance not reached");
            mon::distinct(mon::Hash().add(mon::hash_str(nm)).addv(res).addv(x0).add(A.size()).h);
            return;
        }
        if (what == 2 && !e.ineq)
            what = 1;
        if (what == 0) { // budget and gradient requests
            c() = Cfg::random(r);
            c().iters = r.coin(0.2) ? r.integer(1, 5) : r.integer(5, 200);
            if (f.kind == 0)
                f.kind = 1;
        }
        else {
            f.kind = 0;
            f.scale = 1;
            f.off = r.range(-3, 3);
            for (int i = 0; i < n; i++) {
                f.w(i) = r.range(0.5, 3);
                f.a(i) = r.range(0.2, 0.8);
                if (r.coin(0.2))
                    f.a(i) = r.coin() ? r.range(-0.5, -0.1) : r.range(1.1, 1.5);
            }
            c().iters = e.grad ? 500 : 1500;
        }
        VectorXd want = f.a.cwiseMax(0).cwiseMin(1);
        if (what == 2) {
            for (int i = 0; i < n; i++)
                f.a(i) = r.range(0.35, 0.65);
            bool eq = e.eq && n > 1 && r.coin();
            Con& k = eq ? ce : ci;
            k.a = VectorXd(n);
            for (int i = 0; i < n; i++)
                k.a(i) = (r.coin() ? 1 : -1) * r.range(0.5, 1.5);
            // active or not
            double shift = r.coin(0.7) ? r.range(0.02, 0.12) : -r.range(0.02, 0.12);
            k.b = k.a.dot(f.a) - shift;
            VectorXd wi = f.w.cwiseInverse();
            want = f.a;
            if (eq || shift > 0)
                want = f.a - wi.cwiseProduct(k.a) * (shift / k.a.dot(wi.cwiseProduct(k.a)));
            if ((want.array() < 0.02).any() || (want.array() > 0.98).any())
                return;
            (eq ? ce : ci).L = eq ? &Le : &Li;
            if (eq)
                s.eq = &ce;
            else
                s.ineq = &ci;
            mon::event(eq ? "equality constraints" : shift > 0 ? "active inequality constraints" : "inactive inequality constraints");
        }
        log().clear();
        VectorXd res = e.run(f, x0, true, s);
        std::string d = mon::str(nm, " mode ", what, " n=", n, " ", f.describe(), " init=", mon::vec(x0), " ", c().describe());
        size_t withg = 0;
        for (auto& l : log())
            withg += l.grad;
        mon::event("run:" + nm);
        mon::event("evaluations", log().size());
        mon::evaluation(log().size() + Li.size() + Le.size());
        mon::check(!log().empty(), "no-evaluation:" + nm, d);
        if (e.grad)
            mon::check(withg > 0, "gradient-never-asked:" + nm, d);
        else
            mon::check(withg == 0, "gradient-asked:" + nm, mon::str(withg, " ", d));
        for (auto& l : Li)
            if (!e.grad)
                mon::check(!l.grad, "constraint-gradient:" + nm, d);
        int over = (int)log().size() - c().iters;
        if (over > 0)
            mon::event("over budget:" + nm);
        if (over > 0)
            mon::event("over budget by", over);
        mon::check(over <= e.slack, "budget:" + nm, mon::str(log().size(), " evaluations of ", c().iters, " ", d));
        if ((int)log().size() >= c().iters)
            mon::event("budget used up");
        else
            mon::event("stopped before the budget");
        if (what == 1 && e.acc > 0) {
            bool ok = (res - want).cwiseAbs().maxCoeff() <= e.acc;
            mon::event((ok ? "rate+:optimum:" : "rate-:optimum:") + nm);
            if (e.strict)
                mon::check(ok, "optimum:" + nm, mon::str("returned ", mon::vec(res), " instead of ", mon::vec(want), " ", d));
            mon::event("optima compared");
            if (want != f.a)
                mon::event("optima on the boundary");
        }
        if (what == 2) {
            const Con& k = s.eq ? ce : ci;
            auto& L = s.eq ? Le : Li;
            mon::check(!L.empty(), "constraint-ignored:" + nm, d);
            double v = k.a.dot(res) - k.b;
            bool feas = s.eq ? std::fabs(v) < 1e-3 : v < 1e-3;
            bool ok = (res - want).cwiseAbs().maxCoeff() <= 0.03;
            mon::event((feas ? "rate+:feasible:" : "rate-:feasible:") + nm);
            if (nm != "ISRES")
                mon::event((ok ? "rate+:constrained optimum:" : "rate-:constrained optimum:") + nm);
            if (e.con >= 1)
                mon::check(feas, "infeasible:" + nm, mon::str("constraint value ", v, " ", d));
            if (e.con >= 2)
                mon::check(ok, "constrained-optimum:" + nm, mon::str("returned ", mon::vec(res), " instead of ", mon::vec(want), " ", d));
            mon::event("constrained runs");
        }
        mon::distinct(mon::Hash().add(mon::hash_str(nm)).addv(res).addv(x0).add(log().size()).h);
        mon::sample(mon::str(d, " -> ", mon::vec(res), " in ", log().size(), " evaluations"));
    });
    return mon::finish();
}
