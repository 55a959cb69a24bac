// C30: IMGPO, every evaluated point
#include "bofake.hpp"
#include <limbo/limbo.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
using namespace fk;
using namespace limbo;

struct IP : public fk::Params {
    struct bayes_opt_imgpo {
        static bool hp_opt() { return set().hp_period > 0; }
    };
    struct kernel : limbo::defaults::kernel {
        BO_PARAM(double, noise, 1e-3);
    };
    struct kernel_maternfivehalves {
        BO_PARAM(double, sigma_sq, 1);
        BO_PARAM(double, l, 0.25);
    };
    struct acqui_ucb_imgpo {
        BO_PARAM(double, nu, 0.05);
    };
    struct opt_rprop : limbo::defaults::opt_rprop {
        BO_PARAM(int, iterations, 10);
    };
};
typedef model::GP<IP, kernel::MaternFiveHalves<IP>, mean::Data<IP>, model::gp::KernelLFOpt<IP>> RG;
typedef acqui::experimental::UCB_IMGPO<IP, RG> RAq;

static std::function<void(const Vs&, const Vs&)>& onacq()
{
    static std::function<void(const Vs&, const Vs&)> f;
    return f;
}
static std::function<void(const VectorXd&)>& onask()
{
    static std::function<void(const VectorXd&)> f;
    return f;
}
static mon::Rng& ar()
{
    static mon::Rng r(1);
    return r;
}
static double& high()
{
    static double h = 0.5;
    return h;
}
// a model and a bound chosen by the harness, which drive the search into every branch
struct FM {
    int din = 0, dout = 0, hp = 0;
    Vs X, Y;
    FM() {}
    FM(int i, int o) : din(i), dout(o) {}
    void compute(const Vs& x, const Vs& y)
    {
        X = x;
        Y = y;
    }
    void optimize_hyperparams() { rec(HP); }
    int dim_in() const { return din; }
    int dim_out() const { return dout; }
    std::tuple<VectorXd, double> query(const VectorXd& x) const
    {
        VectorXd m(dout);
        for (int i = 0; i < dout; i++)
            m(i) = ar().range(-6, 2);
        return std::make_tuple(m, ar().unit());
    }
};
struct FA {
    const FM& m;
    FA(const FM& model, size_t M = 1) : m(model)
    {
        if (onacq())
            onacq()(m.X, m.Y);
    }
    size_t dim_in() const { return m.dim_in(); }
    size_t dim_out() const { return m.dim_out(); }
    template <typename A>
    double operator()(const VectorXd& v, const A&) const
    {
        if (onask())
            onask()(v);
        return ar().coin(high()) ? 50. : ar().range(-9, 3);
    }
};
struct WA : public RAq {
    WA(const RG& model, size_t M = 1) : RAq(model, M)
    {
        if (onacq())
            onacq()(model.samples(), model.observations());
    }
    template <typename A>
    double operator()(const VectorXd& v, const A& a) const
    {
        if (onask())
            onask()(v);
        return RAq::operator()(v, a);
    }
};
struct IFun {
    static size_t dim_in() { return set().dim_in; }
    static size_t dim_out() { return set().dim_out; }
    static int& shape()
    {
        static int s = 0;
        return s;
    }
    static Vs& X()
    {
        static Vs v;
        return v;
    }
    static Vs& Y()
    {
        static Vs v;
        return v;
    }
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y(set().dim_out);
        mon::Rng r(Fun::salt());
        VectorXd c(x.size());
        for (int i = 0; i < c.size(); i++)
            c(i) = r.unit();
        for (int o = 0; o < y.size(); o++)
            switch (shape()) {
            case 0: y(o) = -(x - c).norm() * (1 + o); break;
            case 1: y(o) = -(x - c).squaredNorm() * 10 + o; break;
            case 2: y(o) = std::sin(13 * x.sum() + o) * std::sin(27 * x(0)) / 2 + 0.5; break;
            case 3: y(o) = 1; break;
            case 4: y(o) = mon::Rng(Fun::salt() ^ mon::Hash().addv(x).add(o).h).range(-5, 3); break;
            case 5: y(o) = x(0) * (o % 2 ? -1 : 1); break;
            default: y(o) = std::floor(5 * x.sum()); break;
            }
        X().push_back(x);
        Y().push_back(y);
        return y;
    }
};
// x = (2m+1)/(2 3^k) with the smallest k; -1 if there is none within double precision
static int level(double x, long long& m)
{
    double p = 1;
    for (int k = 0; k <= 20; k++, p *= 3) {
        double z = x * p - 0.5, e = std::fabs(z - std::round(z));
        if (e < 2e-15 * p * (k + 2)) {
            m = (long long)std::round(z);
            return k;
        }
    }
    return -1;
}
struct Key {
    std::vector<std::pair<int, long long>> c;
    bool operator<(const Key& o) const { return c < o.c; }
};
static bool key(const VectorXd& x, Key& k)
{
    k.c.clear();
    for (long j = 0; j < x.size(); j++) {
        long long m = 0;
        int l = level(x(j), m);
        if (l < 0)
            return false;
        k.c.push_back({l, m});
    }
    return true;
}
static std::pair<Vs, Vs> data_of(const FM& m) { return {m.X, m.Y}; }
static std::pair<Vs, Vs> data_of(const RG& m) { return {m.samples(), m.observations()}; }
template <typename B>
void one(mon::Rng& r, const char* name, bool fake)
{
    set() = Set();
    set().dim_in = r.integer(1, 4);
    set().dim_out = r.integer(1, 2);
    set().iterations = fake ? r.integer(1, 60) : r.integer(1, 30);
    set().hp_period = r.coin() ? 1 : -1;
    IFun::shape() = r.integer(0, 6);
    Fun::salt() = r.u64();
    ar() = mon::Rng(r.u64());
    high() = r.coin(0.2) ? 1 : r.range(0, 1);
    Agg ag;
    ag.kind = r.integer(0, 5);
    B bo;
    int runs = r.integer(1, 2);
    std::string what = mon::str(name, " in=", set().dim_in, " out=", set().dim_out, " budget ", set().iterations, " function ", IFun::shape());
    for (int k = 0; k < runs; k++) {
        IFun::X().clear();
        IFun::Y().clear();
        tr().clear();
        initpts().clear();
        int ni = r.coin(0.25) ? r.integer(1, 3) : 0;
        for (int i = 0; i < ni; i++) {
            VectorXd v(set().dim_in);
            for (int j = 0; j < v.size(); j++)
                v(j) = r.unit();
            initpts().push_back(v);
        }
        auto nv = mon::S().nviol;
        size_t stopped_at = 0;
        int asked = 0;
        onacq() = [&](const Vs& x, const Vs& y) {
            mon::event("bound_asked");
            mon::check(x == IFun::X() && y == IFun::Y(), "imgpo:model-data", mon::str(what, ": the model holds ", x.size(), " of ", IFun::X().size(), " evaluated pairs when the bound is asked for"));
        };
        // how small the cells get: every cell's thirds are asked for, evaluated or not
        int deep = 0;
        std::vector<int> deeps;
        onask() = [&](const VectorXd& v) {
            for (long j = 0; j < v.size(); j++) {
                long long m;
                deep = std::max(deep, level(v(j), m));
            }
            deeps.resize(IFun::X().size(), deep);
        };
        bool over = false;
        crit()[0] = [&](int cur, int tot, size_t n) {
            asked++;
            size_t ev = IFun::X().size();
            mon::check(!over, "imgpo:stop", what + ": the search went on after its stopping criterion held");
            mon::check(n == ev, "imgpo:records", mon::str(what, ": ", n, " samples recorded for ", ev, " evaluations"));
            mon::check(cur == (int)ev - ni && tot == (int)ev - ni, "imgpo:counters", mon::str(what, ": counters ", cur, "/", tot, " after ", ev, " evaluations, ", ni, " of them initial"));
            if (cur >= set().iterations) {
                over = true;
                stopped_at = ev;
                return true;
            }
            return false;
        };
        if (ag.kind == 0 || r.coin(0.5))
            bo.optimize(IFun());
        else
            bo.optimize(IFun(), ag);
        onacq() = nullptr;
        onask() = nullptr;
        deeps.resize(IFun::X().size(), deep);
        const Vs &X = IFun::X(), &Y = IFun::Y();
        mon::evaluation(X.size());
        mon::check(over && stopped_at == X.size(), "imgpo:stop", mon::str(what, ": ", X.size(), " evaluations but ", stopped_at, " when the stopping criterion held"));
        mon::check(bo.samples() == X && bo.observations() == Y, "imgpo:records", what + ": samples and observations are not the evaluated ones in order");
        mon::check(data_of(bo.model()) == std::make_pair(X, Y), "imgpo:final-model", what + ": the model does not hold the evaluated data after the run");
        std::set<Key> seen;
        for (size_t i = ni; i < X.size() ; i++) {
            const VectorXd& x = X[i];
            if (!mon::check(x.size() == set().dim_in && x.minCoeff() > 0 && x.maxCoeff() < 1, "imgpo:outside", mon::str(what, ": evaluated ", mon::vec(x), " outside of the open unit hypercube")))
                break;
            // how small the cells can be by now: beyond double precision nothing is decided
            if (deeps[i] >= 18) {
                mon::event("beyond_double_precision");
                break;
            }
            Key kx;
            if (!key(x, kx)) {
                mon::violation("imgpo:not-a-centre", mon::str(what, ": evaluated ", mon::vec(x), " (evaluation ", i, ") which is no centre of a repeatedly trisected cell"));
                break;
            }
            if (i == (size_t)ni) {
                for (auto& c : kx.c)
                    mon::check(c.first == 0 && c.second == 0, "imgpo:root", mon::str(what, ": the first point of the search is ", mon::vec(x), ", not the centre of the hypercube"));
            }
            else {
                // it is the left or right third of a cell whose centre was evaluated before
                bool parent = false;
                for (size_t j = 0; j < kx.c.size() && !parent; j++) {
                    if (kx.c[j].first == 0)
                        continue;
                    Key p = kx;
                    // the parent's centre in dimension j, in lowest terms
                    long long m = kx.c[j].second / 3;
                    int l = kx.c[j].first - 1;
                    while (l > 0 && m % 3 == 1) {
                        m /= 3;
                        l--;
                    }
                    p.c[j] = {l, m};
                    parent = seen.count(p);
                }
                mon::check(parent, "imgpo:orphan", mon::str(what, ": evaluated ", mon::vec(x), " (evaluation ", i, ") but no centre of a cell it is a third of was evaluated before"));
            }
            mon::check(!seen.count(kx), "imgpo:twice", mon::str(what, ": evaluated ", mon::vec(x), " twice (evaluation ", i, ")"));
            seen.insert(kx);
            mon::distinct(mon::Hash().addv(x).add(set().dim_in).h);
            if (nv != mon::S().nviol)
                break;
        }
        mon::event(mon::str("depth>=", deep >= 12 ? 12 : deep >= 6 ? 6 : deep >= 3 ? 3 : 0));
        mon::event(fake ? "fake_runs" : "real_runs");
        if (ni)
            mon::event("runs_with_initial_points");
        if (nv != mon::S().nviol)
            return;
        int hps = 0;
        for (auto& e : tr())
            hps += e.k == HP;
        if (fake)
            mon::check(hps == (set().hp_period > 0 ? 1 : 0), "imgpo:hp", mon::str(what, ": ", hps, " hyper-parameter optimisations at the end"));
        // best
        for (int q = 0; q < 2; q++) {
            Agg a;
            a.kind = q ? r.integer(0, 5) : 0;
            double mx = -INFINITY;
            for (auto& y : Y)
                mx = std::max(mx, a(y));
            VectorXd b = bo.best_observation(a), s = bo.best_sample(a);
            bool ok = false;
            for (size_t i = 0; i < X.size(); i++)
                ok = ok || (X[i] == s && a(Y[i]) == mx);
            mon::check(ok && a(b) == mx, "imgpo:best", what + ": best_sample/best_observation are not the best of what was evaluated");
        }
    }
    mon::sample(what + mon::str(", ", IFun::X().size(), " evaluations"));
}

// The whole search, followed round by round. The bound is, per cell, either above or below anything the
// function reaches, and the model's prediction is certain, so that what each round must evaluate follows from the
// algorithm alone; only ties (equal values of two cells) leave a choice, and are not judged further.
static uint64_t& pick()
{
    static uint64_t s = 0;
    return s;
}
static double& open_()
{
    static double s = 0.5;
    return s;
}
static uint64_t cell_hash(const VectorXd& x)
{
    Key k;
    mon::Hash h;
    h.add(pick());
    if (key(x, k))
        for (auto& c : k.c)
            h.add(c.first).add(c.second);
    return h.h;
}
// the share of the other cells whose bound lies among the values, and not below all of them
static double& middling()
{
    static double s = 0;
    return s;
}
static double bound(const VectorXd& x)
{
    mon::Rng r(cell_hash(x));
    if (r.unit() < open_())
        return 500;
    return r.unit() < middling() ? r.range(-4, 4) : -500;
}
static VectorXd guess(const VectorXd& x, int out)
{
    mon::Rng r(cell_hash(x) ^ 0x51ed);
    VectorXd m(out);
    for (int i = 0; i < out; i++)
        m(i) = r.range(-4, 4);
    return m;
}
struct PM : public FM {
    PM() {}
    PM(int i, int o) : FM(i, o) {}
    std::tuple<VectorXd, double> query(const VectorXd& x) const { return std::make_tuple(guess(x, dout), 0.); }
    VectorXd mu(const VectorXd& x) const { return guess(x, dout); }
    double sigma(const VectorXd&) const { return 0; }
};
struct PA {
    const PM& m;
    PA(const PM& model, size_t M = 1) : m(model) {}
    size_t dim_in() const { return m.dim_in(); }
    size_t dim_out() const { return m.dim_out(); }
    template <typename A>
    double operator()(const VectorXd& v, const A&) const { return bound(v); }
};
struct Cell {
    VectorXd lo, hi, x, f;
    bool leaf, known;
};
// set once the longest side of a cell was a matter of rounding: nothing is judged after it if the code took another
static bool& rounding()
{
    static bool b = false;
    return b;
}
static std::vector<Cell> thirds(const Cell& c)
{
    size_t d = 0;
    VectorXd w = c.hi - c.lo;
    w.maxCoeff(&d);
    for (long j = 0; j < w.size(); j++)
        if (w(j) != w(d) && w(j) > w(d) * (1 - 1e-9))
            rounding() = true;
    std::vector<Cell> o(3, c);
    double lo = c.lo(d), hi = c.hi(d);
    o[0].hi(d) = (2 * lo + hi) / 3;
    o[1].lo(d) = (2 * lo + hi) / 3;
    o[1].hi(d) = (lo + 2 * hi) / 3;
    o[2].lo(d) = (lo + 2 * hi) / 3;
    o[0].x(d) = (5 * lo + hi) / 6;
    o[2].x(d) = (lo + 5 * hi) / 6;
    for (auto& q : o)
        q.leaf = true;
    return o;
}
static double highest(const Cell& c, int levels)
{
    std::vector<Cell> t = thirds(c);
    double m = std::max(bound(t[0].x), bound(t[2].x));
    if (levels > 1)
        for (auto& x : t)
            m = std::max(m, highest(x, levels - 1));
    return m;
}
template <typename B>
static void replay(mon::Rng& r)
{
    set() = Set();
    set().dim_in = r.integer(1, 4);
    set().dim_out = r.integer(1, 3);
    set().iterations = r.integer(5, 60);
    static const int shapes[] = {0, 1, 2, 4};
    IFun::shape() = shapes[r.integer(0, 3)];
    Fun::salt() = r.u64();
    pick() = r.u64();
    rounding() = false;
    open_() = r.coin(0.25) ? 1 : r.range(0, 0.9);
    middling() = r.coin() ? 0 : r.unit();
    Agg ag;
    ag.kind = r.coin() ? 0 : r.integer(0, 5);
    initpts().clear();
    for (int i = r.coin(0.3) ? r.integer(1, 3) : 0; i > 0; i--) {
        VectorXd v(set().dim_in);
        for (int j = 0; j < v.size(); j++)
            v(j) = r.unit();
        initpts().push_back(v);
    }
    size_t ni = initpts().size();
    IFun::X().clear();
    IFun::Y().clear();
    tr().clear();
    std::string what = mon::str("in=", set().dim_in, " out=", set().dim_out, " aggregator ", ag.kind, " function ", IFun::shape(), " shares of cells worth evaluating ", open_(), " and of bounds among the values ", middling());
    std::vector<size_t> ends;
    crit()[0] = [&](int cur, int, size_t) {
        ends.push_back(IFun::X().size());
        // every cell may be hopeless: the rounds then find nothing to evaluate
        return cur >= set().iterations || ends.size() > 300;
    };
    B bo;
    bo.optimize(IFun(), ag);
    const Vs &X = IFun::X(), &Y = IFun::Y();
    if (ends.empty() || ends[0] != ni + 1 || ends.back() != X.size()) {
        mon::violation("imgpo:rounds", mon::str(what, ": the first round starts after ", ends.empty() ? 0 : ends[0], " evaluations, ", ni, " of them initial"));
        return;
    }
    std::vector<std::vector<Cell>> tree(2);
    tree[0].push_back({VectorXd::Zero(set().dim_in), VectorXd::Ones(set().dim_in), VectorXd::Constant(set().dim_in, 0.5), Y[ni], true, true});
    double LB = ag(Y[ni]), LBold = LB, XI = 1, best = -INFINITY;
    for (size_t i = 0; i <= ni; i++)
        best = std::max(best, ag(Y[i]));
    for (size_t k = 0; k + 1 < ends.size(); k++) {
        // what this round evaluated; every one of them must be wanted, and all that is wanted is there
        std::vector<size_t> left;
        for (size_t i = ends[k]; i < ends[k + 1]; i++)
            left.push_back(i);
        auto take = [&](const VectorXd& x) -> long {
            for (size_t i = 0; i < left.size(); i++)
                if ((X[left[i]] - x).cwiseAbs().maxCoeff() < 1e-11) {
                    long j = left[i];
                    left.erase(left.begin() + i);
                    best = std::max(best, ag(Y[j]));
                    mon::event("evaluation followed");
                    mon::evaluation();
                    return j;
                }
            return -1;
        };
        std::string where = mon::str(what, ", round ", k + 1, " of ", ends.size() - 1, ": ");
        auto missing = [&](const char* why, const VectorXd& x) {
            if (rounding()) {
                mon::event("rounding decided the side");
                return;
            }
            std::string l;
            for (size_t i : left)
                l += " " + mon::vec(X[i]);
            mon::violation("imgpo:not-followed", mon::str(where, why, " ", mon::vec(x), " is not evaluated; left are", l));
        };
        const size_t depth = tree.size() - 2;
        std::vector<long> im(depth + 1, -1);
        std::vector<double> bm(depth + 1, -INFINITY);
        double top = -INFINITY;
        for (size_t h = 0; h <= depth; h++) {
            for (;;) {
                im[h] = -1;
                bm[h] = -INFINITY;
                for (size_t i = 0; i < tree[h].size(); i++) {
                    if (!tree[h][i].leaf)
                        continue;
                    double v = ag(tree[h][i].f);
                    if (v > std::max(top, bm[h])) {
                        bm[h] = v;
                        im[h] = i;
                    }
                }
                if (im[h] < 0)
                    break;
                int equal = 0;
                for (auto& c : tree[h])
                    equal += c.leaf && std::fabs(ag(c.f) - bm[h]) < 1e-12;
                for (size_t g = 0; g < h; g++)
                    equal += im[g] >= 0 && bm[g] != bm[h] && std::fabs(bm[g] - bm[h]) < 1e-12;
                if (equal > 1) {
                    mon::event("tied cells");
                    return;
                }
                Cell& c = tree[h][im[h]];
                if (c.known)
                    break;
                long j = take(c.x);
                if (j < 0) {
                    missing("the most promising cell of its depth has only a predicted value, but its centre", c.x);
                    return;
                }
                mon::event("promising cell evaluated at last");
                c.known = true;
                c.f = Y[j];
            }
            if (im[h] >= 0)
                top = bm[h];
        }
        for (size_t h = 0; h <= depth; h++) {
            if (im[h] < 0)
                continue;
            long x = -1;
            for (size_t g = h + 1; g <= std::min(depth, h + std::min((size_t)std::ceil(XI), (size_t)4)); g++)
                if (im[g] >= 0) {
                    x = g - h;
                    break;
                }
            if (x > 0) {
                mon::event(x > 1 ? "bounded some levels below" : "bounded one level below");
                const double z = highest(tree[h][im[h]], x);
                if (z < bm[h + x] && z > bm[h])
                    mon::event("bounded between its own value and the deeper candidate's");
                if (z < bm[h + x]) {
                    mon::event(x > 1 ? "cell given up by what lies some levels below" : "cell given up by what lies one level below");
                    im[h] = -1;
                }
            }
        }
        double found = -INFINITY;
        bool deeper = false;
        for (size_t h = 0; h <= depth; h++) {
            if (im[h] < 0 || !(bm[h] > found))
                continue;
            if (h == depth)
                deeper = true;
            Cell c = tree[h][im[h]];
            tree[h][im[h]].leaf = false;
            std::vector<Cell> t = thirds(c);
            for (int i : {0, 2}) {
                if (bound(t[i].x) - LB >= 1e-6) {
                    long j = take(t[i].x);
                    if (j < 0) {
                        missing(i ? "the right third of a cell to divide" : "the left third of a cell to divide", t[i].x);
                        return;
                    }
                    t[i].f = Y[j];
                    t[i].known = true;
                    found = std::max(found, ag(Y[j]));
                }
                else {
                    t[i].f = guess(t[i].x, set().dim_out);
                    t[i].known = false;
                    mon::event(bound(t[i].x) > -500 ? "cell bounded by less than the best not evaluated" : "hopeless cell not evaluated");
                }
            }
            for (auto& q : t)
                tree[h + 1].push_back(q);
            LB = best;
            mon::event("division followed");
        }
        if (deeper)
            tree.emplace_back();
        if (left.size()) {
            if (rounding())
                mon::event("rounding decided the side");
            else
                mon::violation("imgpo:not-followed", mon::str(where, "evaluated ", mon::vec(X[left[0]]), ", which is no centre this round should evaluate"));
            return;
        }
        mon::event("round followed");
        XI = std::fabs(LBold - LB) < 1e-6 ? std::max(XI - 0.5, 1.0) : XI + 4;
        LBold = LB;
        if (tree.size() > 16) {
            mon::event("beyond_double_precision");
            break;
        }
    }
    mon::distinct(mon::Hash().add(pick()).h);
    mon::event("searches followed to the end");
    if (!rounding())
        mon::event("searches followed without doubt");
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    using bayes_opt::experimental::IMGPO;
    typedef IMGPO<IP, modelfun<FM>, acquifun<FA>, initfun<fk::Init>, stopcrit<Crit<0>>> FB;
    typedef IMGPO<IP, modelfun<RG>, acquifun<WA>, initfun<fk::Init>, stopcrit<Crit<0>>> RB;
    typedef IMGPO<IP, modelfun<PM>, acquifun<PA>, initfun<fk::Init>, stopcrit<Crit<0>>> PB;
    mon::run_cases([](long c, mon::Rng& r) {
        if (c % 4 == 3)
            replay<PB>(r);
        else if (c % 4)
            one<FB>(r, "scripted bound", true);
        else
            one<RB>(r, "GP bound", false);
    });
    return mon::finish();
}
