// C11 bounds, C12 best-of, C13 published rules, C15 composition (native optimisers)
#include "mon.hpp"
#include <Eigen/Core>
#include <limbo/opt/adam.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/gradient_ascent.hpp>
#include <limbo/opt/grid_search.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
#include "optfun.hpp"
#ifdef USE_NLOPT
#include <limbo/opt/nlopt_grad.hpp>
#include <limbo/opt/nlopt_no_grad.hpp>
#endif
using namespace limbo;
using namespace of;

struct P {
    struct opt_rprop {
        static int iterations() { return c().iters; }
        static double eps_stop() { return c().eps; }
    };
    struct opt_adam {
        static int iterations() { return c().iters; }
        static double alpha() { return c().alpha; }
        static double b1() { return c().b1; }
        static double b2() { return c().b2; }
        static double eps_stop() { return c().eps; }
    };
    struct opt_gradient_ascent {
        static int iterations() { return c().iters; }
        static double alpha() { return c().alpha; }
        static double gamma() { return c().gamma; }
        static bool nesterov() { return c().nesterov; }
        static double eps_stop() { return c().eps; }
    };
    struct opt_gridsearch {
        static int bins() { return c().bins; }
    };
    struct opt_parallelrepeater {
        static int repeats() { return c().repeats; }
        static double epsilon() { return c().radius; }
    };
    struct opt_nloptgrad {
        static int iterations() { return c().iters; }
        static double fun_tolerance() { return c().ftol; }
        static double xrel_tolerance() { return c().xtol; }
    };
    struct opt_nloptnograd : opt_nloptgrad {
    };
};

typedef opt::Rprop<P> Rp;
typedef opt::Adam<P> Ad;
typedef opt::GradientAscent<P> Ga;
typedef opt::GridSearch<P> Gr;
typedef opt::RandomPoint<P> Ra;

template <typename O>
VectorXd go(const Fn& f, const VectorXd& x, bool b)
{
    O o;
    return o(f, x, b);
}
struct Entry {
    const char* name;
    VectorXd (*run)(const Fn&, const VectorXd&, bool);
    int maxdim;
    bool best; // returns the best point it evaluated
    bool unbounded;
};

// ------------------------------------------------------------------ C11
void bounds_case(mon::Rng& r, const std::vector<Entry>& es)
{
    const Entry& e = es[r.u64() % es.size()];
    int n = r.integer(1, e.maxdim);
    c() = Cfg::random(r);
    Fn f = Fn::random(r, n);
#ifndef USE_NLOPT
    if (r.coin(0.15)) {
        f.kind = std::strstr(e.name, "repeat") ? 9 : r.integer(9, 10);
        mon::event(f.kind == 9 ? "huge negative values" : "infinite or undefined values");
    }
#endif
    VectorXd x0(n);
    bool outside = false;
    for (int i = 0; i < n; i++) {
        int k = r.integer(0, 9);
        x0(i) = k < 5 ? r.unit() : k == 5 ? 0 : k == 6 ? 1 : k == 7 ? r.range(-3, 0) : k == 8 ? r.range(1, 4) : r.range(-40, 40);
        outside |= x0(i) < 0 || x0(i) > 1;
    }
    VectorXd s0 = x0;
    log().clear();
    VectorXd res = e.run(f, x0, true);
    std::string what = mon::str(e.name, " f=", f.describe(), " init=", mon::vec(x0), " ", c().describe());
    mon::check(res.size() == n, std::string("dim:") + e.name, mon::str(what, " returned dimension ", res.size()));
    if (res.size() == n)
        for (int i = 0; i < n; i++)
            if (!(res(i) >= 0 && res(i) <= 1)) {
                mon::violation(std::string("return:") + e.name, mon::str(what, " returned ", mon::vec(res)));
                break;
            }
    for (size_t k = 0; k < log().size(); k++) {
        bool in = log()[k].x.size() == n;
        for (int i = 0; in && i < n; i++)
            in = log()[k].x(i) >= 0 && log()[k].x(i) <= 1;
        if (!in) {
            mon::violation(std::string("eval:") + e.name, mon::str("evaluation ", k, " at ", mon::vec(log()[k].x), " ", what));
            break;
        }
    }
    mon::check(x0 == s0, "init-changed", what);
    mon::evaluation(log().size() + 1);
    mon::event(std::string("run:") + e.name);
    mon::event("evaluated points", log().size());
    if (outside)
        mon::event("start out of bounds");
    bool edge = false;
    for (auto& l : log())
        edge |= (l.x.array() == 0).any() || (l.x.array() == 1).any();
    if (edge)
        mon::event("runs that touched a bound");
    mon::distinct(mon::Hash().add((uint64_t)(e.name[0] * 256 + e.name[1])).addv(res).addv(x0).add(log().size()).h);
    mon::sample(mon::str(what, " -> ", mon::vec(res), " after ", log().size(), " evaluations"));
}

// ------------------------------------------------------------------ C12
void best_case(mon::Rng& r, const std::vector<Entry>& es)
{
    std::vector<const Entry*> be;
    for (auto& e : es)
        if (e.best)
            be.push_back(&e);
    const Entry& e = *be[r.u64() % be.size()];
    bool bounded = e.unbounded ? r.coin() : true;
    int n = r.integer(1, e.maxdim);
    c() = Cfg::random(r);
    Fn f = Fn::random(r, n);
#ifndef USE_NLOPT
    if (r.coin(0.1))
        f.kind = 9;
#endif
    VectorXd x0(n);
    for (int i = 0; i < n; i++)
        x0(i) = r.coin(0.7) ? r.unit() : r.range(-1, 2);
    log().clear();
    VectorXd res = e.run(f, x0, bounded);
    std::vector<Call> L = log();
    std::string what = mon::str(e.name, bounded ? " bounded" : " unbounded", " f=", f.describe(), " init=", mon::vec(x0), " ", c().describe());
    std::string nm = e.name;
    mon::event("run:" + nm);
    mon::event("evaluated points", L.size());
    if (!L.empty()) {
        double best = -std::numeric_limits<double>::infinity();
        bool found = false;
        for (auto& l : L)
            best = std::max(best, l.v);
        for (auto& l : L)
            found |= l.x == res && l.v == best;
        if (!found) {
            double v = res.size() == n ? f.value(res) : NAN;
            mon::check(v >= best, "best:" + nm, mon::str(what, " returned ", mon::vec(res), " value ", v, " but evaluated ", best));
        }
        mon::evaluation(L.size());
        // ties, plateaus and improvements are the interesting histories
        size_t ties = 0;
        for (auto& l : L)
            ties += l.v == best;
        mon::event(ties > 1 ? "runs with ties for the best" : "runs with a single best");
        if (L.front().v < best)
            mon::event("runs that improved on their first point");
        if (best < 0)
            mon::event("runs with only negative values");
        if (nm == "rprop") {
            VectorXd s = x0;
            if (bounded)
                s = s.cwiseMax(0).cwiseMin(1);
            mon::check(L.front().x == s, "start:" + nm, mon::str(what, " starts at ", mon::vec(L.front().x)));
        }
    }
    if (nm == "grid") {
        // every node of the regular grid, both ends included, and nothing else
        std::set<std::vector<int>> seen;
        int b = c().bins;
        for (auto& l : L) {
            std::vector<int> k(n);
            for (int i = 0; i < n; i++) {
                k[i] = (int)std::lround(l.x(i) * b);
                if (!(std::fabs(l.x(i) - (double)k[i] / b) < 1e-9)) {
                    mon::violation("grid-node", mon::str(what, " evaluated ", mon::vec(l.x)));
                    return;
                }
            }
            seen.insert(k);
        }
        double want = std::pow(b + 1, n);
        mon::check((double)seen.size() == want, "grid-complete", mon::str(what, " evaluated ", seen.size(), " nodes of ", want));
        mon::event("grid nodes", seen.size());
    }
    mon::distinct(mon::Hash().add(mon::hash_str(nm)).addv(res).addv(x0).add(L.size()).h);
    mon::sample(mon::str(what, " -> ", mon::vec(res)));
}

// ------------------------------------------------------------------ C13
struct Ld {
    VectorXd x;
};
bool same(const VectorXd& a, const VectorXd& b, double scale)
{
    if (a.size() != b.size())
        return false;
    for (int i = 0; i < a.size(); i++)
        if (!(std::fabs(a(i) - b(i)) <= 1e-9 * (1 + scale + std::fabs(a(i)))))
            return false;
    return true;
}
void rule_case(mon::Rng& r)
{
    int n = r.integer(1, 5);
    c() = Cfg::random(r);
    c().iters = r.coin(0.1) ? r.integer(0, 2) : r.integer(1, 120);
    c().eps = r.coin(0.5) ? 0. : r.logrange(1e-6, 0.3);
    Fn f = Fn::random(r, n, true);
    bool bounded = r.coin();
    VectorXd x0(n);
    for (int i = 0; i < n; i++)
        x0(i) = r.coin(0.8) ? r.unit() : r.range(-1, 2);
    int kind = r.integer(0, 2);
    const char* names[] = {"rprop", "adam", "gradient_ascent"};
    log().clear();
    VectorXd res = kind == 0 ? go<Rp>(f, x0, bounded) : kind == 1 ? go<Ad>(f, x0, bounded) : go<Ga>(f, x0, bounded);
    std::vector<Call> L;
    for (auto& l : log())
        if (l.grad)
            L.push_back(l);
    std::string nm = names[kind];
    std::string what = mon::str(nm, bounded ? " bounded" : " unbounded", " f=", f.describe(), " init=", mon::vec(x0), " ", c().describe());
    mon::event("run:" + nm);
    mon::event("steps", L.size());
    mon::check(L.size() == log().size(), "no-gradient:" + nm, what);
    auto proj = [&](VectorXd v) {
        if (bounded)
            v = v.cwiseMax(0).cwiseMin(1);
        return v;
    };
    if (!mon::check((int)L.size() <= c().iters, "budget:" + nm, mon::str(what, " asked ", L.size(), " gradients")))
        return;
    VectorXd p = proj(x0);
    VectorXd best = p;
    double bv = -std::numeric_limits<double>::infinity();
    VectorXd delta = VectorXd::Constant(n, 0.1), gold = VectorXd::Zero(n), m = VectorXd::Zero(n), v = VectorXd::Zero(n);
    double scale = x0.cwiseAbs().maxCoeff();
    bool stopped = false;
    double margin = 0; // distance of the decision to stop from its threshold
    size_t k = 0;
    for (; k < L.size(); k++) {
        if (stopped) {
            mon::check(margin < 1e-9, "late-stop:" + nm, mon::str(what, " went on after the tolerance was met at step ", k));
            stopped = false;
        }
        if (!(p.cwiseAbs().maxCoeff() < 1e100) || !(v.cwiseAbs().maxCoeff() < 1e100)) {
            mon::event("diverged");
            return;
        }
        VectorXd q = p;
        if (kind == 2 && c().nesterov)
            q = proj(p + c().gamma * v);
        if (!same(q, L[k].x, scale)) {
            mon::violation("step:" + nm, mon::str(what, " step ", k, " at ", mon::vec(L[k].x), " instead of ", mon::vec(q)));
            return;
        }
        const VectorXd& g = L[k].g;
        VectorXd prev = p;
        double crit;
        if (kind == 0) {
            p = L[k].x;
            if (L[k].v > bv) {
                bv = L[k].v;
                best = p;
            }
            VectorXd gg = -g;
            for (int i = 0; i < n; i++) {
                double s = gold(i) * gg(i);
                if (s > 0)
                    delta(i) = std::min(delta(i) * 1.2, 50.);
                else if (s < 0) {
                    delta(i) = std::max(delta(i) * 0.5, 1e-6);
                    gg(i) = 0;
                    mon::event("rprop sign changes");
                }
                p(i) -= ((gg(i) > 0) - (gg(i) < 0)) * delta(i);
            }
            p = proj(p);
            gold = gg;
            crit = g.norm();
        }
        else if (kind == 1) {
            m = c().b1 * m + (1 - c().b1) * g;
            v = c().b2 * v + (1 - c().b2) * g.cwiseProduct(g);
            double k1 = 1 - std::pow(c().b1, k + 1.), k2 = 1 - std::pow(c().b2, k + 1.);
            for (int i = 0; i < n; i++)
                p(i) += c().alpha * (m(i) / k1) / (std::sqrt(v(i) / k2) + 1e-8);
            p = proj(p);
            crit = (p - prev).norm();
        }
        else {
            v = c().gamma * v + c().alpha * g;
            p = proj(p + v);
            crit = (p - prev).norm();
        }
        scale = std::max(scale, p.cwiseAbs().maxCoeff());
        if (crit < c().eps) {
            stopped = true;
            margin = std::fabs(crit - c().eps);
            mon::event("tolerance met:" + nm);
        }
        else
            margin = std::fabs(crit - c().eps);
        if (bounded && ((p.array() == 0) || (p.array() == 1)).any())
            mon::event("projected steps");
    }
    if ((int)L.size() < c().iters && !stopped && margin > 1e-9)
        mon::violation("early-stop:" + nm, mon::str(what, " stopped after ", L.size(), " steps without meeting the tolerance"));
    if (!(p.cwiseAbs().maxCoeff() < 1e100))
        return;
    VectorXd want = kind == 0 ? best : p;
    bool ok = same(want, res, scale);
    if (!ok && kind == 0) // ties
        for (auto& l : L)
            ok |= l.v == bv && l.x == res;
    mon::check(ok, "result:" + nm, mon::str(what, " returned ", mon::vec(res), " instead of ", mon::vec(want)));
    mon::evaluation(L.size() + 1);
    mon::distinct(mon::Hash().add(kind).addv(res).addv(x0).add(L.size()).h);
    if (L.size() > 3)
        mon::sample(mon::str(what, " ", L.size(), " steps -> ", mon::vec(res)));
}

// ------------------------------------------------------------------ C15
struct Inner {
    int id;
    VectorXd start, result;
    bool bounded;
    const void* f;
};
std::vector<Inner> inner;
std::vector<std::function<VectorXd(const VectorXd&)>> behave;
template <int I>
struct Rec {
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& x, bool b) const
    {
        Inner n;
        n.id = I;
        n.start = x;
        n.bounded = b;
        n.f = &f;
        opt::eval(f, x);
        n.result = behave[I](x);
        inner.push_back(n);
        return n.result;
    }
};
void compose_case(mon::Rng& r)
{
    int n = r.integer(1, 4);
    c() = Cfg::random(r);
    Fn f = Fn::random(r, n);
    bool bounded = r.coin();
    VectorXd x0(n);
    for (int i = 0; i < n; i++)
        x0(i) = r.range(-0.2, 1.2);
    behave.assign(4, nullptr);
    uint64_t salt = r.u64();
    int style = r.integer(0, 2); // unique results, plateau results, identity
    for (int k = 0; k < 4; k++)
        behave[k] = [=](const VectorXd& x) {
            if (style == 2)
                return x;
            mon::Rng q(salt + k + mon::Hash().addv(x).h);
            VectorXd y(x.size());
            for (int i = 0; i < x.size(); i++)
                y(i) = style == 1 ? q.integer(0, 2) / 2. : q.range(-0.5, 1.5);
            return y;
        };
    inner.clear();
    log().clear();
    int kind = r.integer(0, 5);
    VectorXd res;
    std::vector<int> order;
    switch (kind) {
    case 0: res = go<opt::Chained<P, Rec<0>>>(f, x0, bounded); order = {0}; break;
    case 1: res = go<opt::Chained<P, Rec<1>, Rec<0>>>(f, x0, bounded); order = {1, 0}; break;
    case 2: res = go<opt::Chained<P, Rec<2>, Rec<0>, Rec<1>>>(f, x0, bounded); order = {2, 0, 1}; break;
    case 3: res = go<opt::Chained<P, Rec<3>, Rec<3>, Rec<1>, Rec<2>, Rec<0>>>(f, x0, bounded); order = {3, 3, 1, 2, 0}; break;
    case 4: res = go<opt::Chained<P, Rec<0>, opt::Chained<P, Rec<1>, Rec<2>>, Rec<3>>>(f, x0, bounded); order = {0, 1, 2, 3}; break;
    default: break;
    }
    std::string what = mon::str("composition ", kind, " init=", mon::vec(x0), " ", c().describe());
    if (kind < 5) {
        mon::event("chains");
        mon::event("chained calls", inner.size());
        if (mon::check(inner.size() == order.size(), "chain-calls", mon::str(what, " ran ", inner.size(), " parts")))
            for (size_t i = 0; i < order.size(); i++) {
                mon::check(inner[i].id == order[i], "chain-order", mon::str(what, " part ", i, " was ", inner[i].id));
                mon::check(inner[i].start == (i ? inner[i - 1].result : x0), "chain-start", mon::str(what, " part ", i, " started at ", mon::vec(inner[i].start)));
                mon::check(inner[i].bounded == bounded, "chain-bounded", what);
                mon::check(inner[i].f == (const void*)&f, "chain-function", what);
            }
        mon::check(!inner.empty() && res == inner.back().result, "chain-result", mon::str(what, " returned ", mon::vec(res)));
        mon::evaluation(inner.size());
        mon::distinct(mon::Hash().add(kind).addv(res).add(bounded).h);
    }
    else {
        res = go<opt::ParallelRepeater<P, Rec<0>>>(f, x0, bounded);
        mon::event("repeaters");
        mon::event("restarts", inner.size());
        mon::check((int)inner.size() == c().repeats, "repeats", mon::str(what, " ran ", inner.size(), " times"));
        double best = -std::numeric_limits<double>::infinity();
        std::set<uint64_t> starts;
        double far = 0;
        for (auto& i : inner) {
            for (int j = 0; j < n; j++)
                far = std::max(far, std::fabs(i.start(j) - x0(j)));
            mon::check(i.bounded == bounded, "repeat-bounded", what);
            best = std::max(best, f.value(i.result));
            starts.insert(mon::Hash().addv(i.start).h);
        }
        mon::check(far <= c().radius * (1 + 1e-9) + 1e-15, "radius", mon::str(what, " started ", far, " away"));
        mon::check(starts.size() == inner.size(), "restarts-differ", mon::str(what, " only ", starts.size(), " different starts"));
        if ((int)inner.size() * n >= 12)
            mon::check(far >= c().radius * 0.25, "radius-used", mon::str(what, " never started further than ", far)); // probability < 2^-24
        bool found = false;
        for (auto& i : inner)
            found |= i.result == res && f.value(i.result) == best;
        mon::check(found, "repeat-result", mon::str(what, " returned ", mon::vec(res), " best ", best));
        mon::evaluation(inner.size());
        mon::distinct(mon::Hash().add(kind).addv(res).add(bounded).h);
        mon::sample(mon::str(what, " repeats=", inner.size(), " best=", best, " furthest start=", far));
    }
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    std::vector<Entry> es = {
        {"rprop", go<Rp>, 6, true, true},
        {"adam", go<Ad>, 6, false, true},
        {"gradient_ascent", go<Ga>, 6, false, true},
        {"grid", go<Gr>, 3, true, false},
        {"random", go<Ra>, 6, false, false},
        {"chain rprop+grid", go<opt::Chained<P, Rp, Gr>>, 3, false, false},
        {"chain random+adam+ga", go<opt::Chained<P, Ra, Ad, Ga>>, 4, false, false},
        {"repeat rprop", go<opt::ParallelRepeater<P, Rp>>, 4, true, true},
        {"repeat chain adam+rprop", go<opt::ParallelRepeater<P, opt::Chained<P, Ad, Rp>>>, 3, false, true},
        {"repeat ga", go<opt::ParallelRepeater<P, Ga>>, 3, false, true},
        {"chain repeat rprop", go<opt::Chained<P, opt::ParallelRepeater<P, Rp>, Rp>>, 3, false, true},
    };
#ifdef USE_NLOPT
#include "nlopt_entries.hpp"
#endif
    std::string m = mon::S().mode;
    mon::run_cases([&](long, mon::Rng& r) {
        if (m == "bounds")
            bounds_case(r, es);
        else if (m == "best")
            best_case(r, es);
        else if (m == "rule")
            rule_case(r);
        else if (m == "compose")
            compose_case(r);
    });
    return mon::finish();
}
