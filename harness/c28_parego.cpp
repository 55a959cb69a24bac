// C28: ParEGO's scalarising model, alone and inside the optimiser
#include "gpkit.hpp"
#include "bofake.hpp"
#include <limbo/tools/random_generator.hpp>
#include <limbo/experimental/model/gp_parego.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
using namespace kit;

static double& rho()
{
    static double r = 0.05;
    return r;
}
struct PP : public kit::Params, public fk::Params {
    using kit::Params::kernel;
    struct model_gp_parego {
        static double rho() { return ::rho(); }
    };
};
template <template <typename> class K>
struct Ker : public K<PP> {
    using K<PP>::K;
};

// the weights that explain what the model observed; empty if none do
static std::string explain(const MatrixXd& s, const Vs& raw, VectorXd& lambda, bool& known)
{
    known = false;
    size_t n = raw.size();
    int m = raw[0].size();
    if ((size_t)s.rows() != n || s.cols() != 1)
        return mon::str("the model holds ", s.rows(), "x", s.cols(), " scalar observations for ", n, " multi-objective ones");
    lambda = VectorXd::Constant(m, NAN);
    // probes: observations c*e_j with c > 0 give lambda_j directly
    for (size_t i = 0; i < n; i++) {
        int nz = -1, cnt = 0;
        for (int j = 0; j < m; j++)
            if (raw[i](j) != 0) {
                nz = j;
                cnt++;
            }
        if (m == 1)
            lambda(0) = 1;
        else if (cnt == 1 && raw[i](nz) > 0)
            lambda(nz) = s(i, 0) / (raw[i](nz) * (1 + rho()));
    }
    for (int j = 0; j < m; j++)
        if (!(lambda(j) == lambda(j)))
            return "";
    known = true;
    double tol = 1e-9;
    for (int j = 0; j < m; j++)
        if (lambda(j) < -tol)
            return mon::str("weights ", mon::vec(lambda), " are not all non-negative");
    if (std::fabs(lambda.sum() - 1) > tol)
        return mon::str("weights ", mon::vec(lambda), " sum to ", lambda.sum());
    for (size_t i = 0; i < n; i++) {
        double mx = -INFINITY, sum = 0, sc = 1e-3;
        for (int j = 0; j < m; j++) {
            mx = std::max(mx, lambda(j) * raw[i](j));
            sum += lambda(j) * raw[i](j);
            sc = std::max(sc, std::fabs(raw[i](j)));
        }
        double want = mx + rho() * sum;
        if (std::fabs(want - s(i, 0)) > 1e-8 * sc * (1 + std::fabs(rho())))
            return mon::str("observation ", i, " ", mon::vec(raw[i]), " was scalarised to ", s(i, 0), ", with the weights ", mon::vec(lambda), " it is ", want);
    }
    return "";
}

static std::vector<VectorXd>& weights(int m)
{
    static std::map<int, std::vector<VectorXd>> w;
    return w[m];
}

template <typename K, typename Mn>
void model_case(mon::Rng& r)
{
    typedef limbo::model::GP<PP, K, Mn> G;
    typedef limbo::experimental::model::GPParego<PP, G> M;
    random_cfg(r, ref::M52);
    cfg().noise = r.logrange(1e-3, 0.5);
    rho() = r.coin(0.2) ? 0. : r.coin() ? 0.05 : r.range(0, 1);
    int d = r.integer(1, 4), m = r.integer(1, 6);
    M gp(d, m);
    Vs X, Y;
    std::string hist = mon::str("objectives ", m, " rho ", rho(), " ");
    int kind = r.integer(0, 3);
    auto obs = [&]() {
        VectorXd y(m);
        double sc = r.coin(0.1) ? 100 : 1;
        for (int j = 0; j < m; j++)
            y(j) = kind == 0 ? r.unit() : kind == 1 ? -r.unit() : kind == 2 ? r.range(-3, 3) : r.integer(-2, 2);
        return VectorXd(sc * y);
    };
    auto point = [&]() { return random_points(r, 1, d)[0]; };
    int steps = r.integer(1, 6);
    VectorXd last;
    for (int s = 0; s < steps; s++) {
        bool compute = s == 0 ? r.coin(0.7) : r.coin(0.2);
        if (compute) {
            X.clear();
            Y.clear();
            for (int j = 0; j < m; j++) {
                VectorXd e = VectorXd::Zero(m);
                e(j) = r.range(0.5, 4);
                X.push_back(point());
                Y.push_back(e);
            }
            int extra = r.integer(0, 10);
            for (int i = 0; i < extra; i++) {
                X.push_back(point());
                Y.push_back(obs());
            }
            for (size_t i = X.size() - 1; i > 0; i--) {
                size_t k = r.integer(0, (int)i);
                std::swap(X[i], X[k]);
                std::swap(Y[i], Y[k]);
            }
            Vs cx = X, cy = Y;
            gp.compute(cx, cy);
            mon::check(cx.size() == X.size() && cy == Y, "parego:arguments", "compute changed the data it was given");
            hist += mon::str("compute(", X.size(), ") ");
            mon::event("op:compute");
        }
        else {
            VectorXd x = point(), y = obs();
            if (X.size() < (size_t)m && X.size() == Y.size()) { // probes first
                y.setZero();
                y(X.size()) = r.range(0.5, 4);
            }
            gp.add_sample(x, y);
            X.push_back(x);
            Y.push_back(y);
            hist += "add ";
            mon::event("op:add");
        }
        mon::evaluation();
        auto nv = mon::S().nviol;
        mon::check(gp.samples() == X && gp.nb_samples() == (int)X.size(), "parego:samples", hist + ": the samples of the model are not the ones it was given");
        MatrixXd sc = gp.observations_matrix();
        VectorXd la;
        bool known;
        std::string why = explain(sc, Y, la, known);
        mon::check(why.empty(), "parego:scalarisation", hist + ": " + why);
        if (known && why.empty() && m > 1) {
            mon::event("weights_recovered");
            mon::event(mon::str("objectives ", m));
            weights(m).push_back(la);
            if (last.size() == la.size())
                mon::check((last - la).cwiseAbs().maxCoeff() > 1e-12, "parego:weights-frozen", hist + mon::str(": the weights ", mon::vec(la), " were not redrawn at an update"));
            last = la;
            mon::distinct(mon::Hash().add(m).addv(la).addv(Y.back()).h);
        }
        // it predicts what a single-output GP of the scalarised values predicts
        if (sc.cols() == 1 && (size_t)sc.rows() == X.size()) {
            G ref(d, 1);
            ref.kernel_function() = gp.kernel_function();
            ref.mean_function() = gp.mean_function();
            Vs ys;
            for (long i = 0; i < sc.rows(); i++)
                ys.push_back(sc.row(i).transpose());
            ref.compute(X, ys);
            for (int q = 0; q < 3; q++) {
                VectorXd v = random_query(r, X, d);
                VectorXd m0 = ref.mu(v), m1 = gp.mu(v);
                double s0 = ref.sigma(v), s1 = gp.sigma(v);
                mon::check(m1.size() == 1 && std::fabs(m0(0) - m1(0)) <= 1e-9 * (1 + std::fabs(m0(0))) && std::fabs(s0 - s1) <= 1e-9 * (1 + s0), "parego:prediction",
                    mon::str(hist, ": mu ", mon::vec(m1), " sigma ", s1, " but the GP of the scalarised values gives ", mon::vec(m0), " ", s0));
            }
        }
        if (nv != mon::S().nviol)
            return;
    }
    mon::sample(hist);
}

// ---- the optimiser
struct Stop {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A&) const { return bo.current_iteration() >= fk::set().iterations; }
};
static std::function<void()>& atacqui()
{
    static std::function<void()> f;
    return f;
}
static const void*& themodel()
{
    static const void* p = 0;
    return p;
}
static MatrixXd& seen_obs()
{
    static MatrixXd m;
    return m;
}
static Vs& seen_x()
{
    static Vs v;
    return v;
}
template <typename M>
struct RecAcqui {
    const M& m;
    RecAcqui(const M& model, int it = 0) : m(model)
    {
        seen_obs() = model.observations_matrix();
        seen_x() = model.samples();
        if (atacqui())
            atacqui()();
    }
    size_t dim_in() const { return m.dim_in(); }
    size_t dim_out() const { return 1; }
    template <typename A>
    limbo::opt::eval_t operator()(const VectorXd& x, const A& afun, bool) const { return limbo::opt::no_grad(afun(m.mu(x))); }
};
// evaluates unit vectors first so that the weights can be read off
struct ProbeFun {
    static size_t dim_in() { return fk::set().dim_in; }
    static size_t dim_out() { return fk::set().dim_out; }
    static Vs& X()
    {
        static Vs v;
        return v;
    }
    static Vs& Y()
    {
        static Vs v;
        return v;
    }
    VectorXd operator()(const VectorXd& x) const
    {
        int m = fk::set().dim_out;
        VectorXd y;
        if (X().size() < (size_t)m) {
            y = VectorXd::Zero(m);
            y(X().size()) = 1.5;
        }
        else
            y = fk::Fun::value(x);
        X().push_back(x);
        Y().push_back(y);
        return y;
    }
};
template <typename B>
void bo_case(mon::Rng& r, const char* name)
{
    random_cfg(r, ref::M52);
    cfg().noise = r.logrange(1e-3, 0.5);
    rho() = r.range(0, 0.5);
    fk::set() = fk::Set();
    fk::set().dim_in = r.integer(1, 3);
    fk::set().dim_out = r.integer(1, 4);
    fk::set().samples = fk::set().dim_out + r.integer(0, 4);
    fk::set().iterations = r.integer(1, 6);
    fk::Fun::salt() = r.u64();
    fk::optrng() = mon::Rng(r.u64());
    ProbeFun::X().clear();
    ProbeFun::Y().clear();
    fk::tr().clear();
    B bo;
    std::string what = mon::str(name, " ", fk::set().dim_out, " objectives, ", fk::set().samples, " initial samples");
    auto nv = mon::S().nviol;
    VectorXd last;
    int asked = 0;
    atacqui() = [&]() {
        asked++;
        mon::evaluation();
        if (nv != mon::S().nviol)
            return;
        mon::check(bo.samples() == ProbeFun::X() && bo.observations() == ProbeFun::Y(), "parego-bo:records", what + ": samples and (multi-objective) observations are not the evaluated ones");
        if (!mon::check(seen_x() == ProbeFun::X(), "parego-bo:model-samples", what + mon::str(": at iteration ", asked, " the model holds ", seen_x().size(), " samples of ", ProbeFun::X().size(), " evaluated")))
            return;
        VectorXd la;
        bool known;
        std::string why = explain(seen_obs(), ProbeFun::Y(), la, known);
        mon::check(why.empty(), "parego-bo:scalarisation", what + mon::str(": at iteration ", asked, ": ", why));
        if (known && la.size() > 1) {
            mon::event("bo_weights_recovered");
            if (last.size())
                mon::check((last - la).cwiseAbs().maxCoeff() > 1e-12, "parego-bo:weights-frozen", what + ": the weights were not redrawn between two iterations");
            last = la;
            mon::distinct(mon::Hash().addv(la).h);
        }
    };
    bo.optimize(ProbeFun());
    atacqui() = nullptr;
    mon::check(asked == fk::set().iterations, "parego-bo:iterations", what + mon::str(": ", asked, " iterations instead of ", fk::set().iterations));
    mon::check((int)ProbeFun::X().size() == fk::set().samples + fk::set().iterations && bo.samples() == ProbeFun::X() && bo.observations() == ProbeFun::Y(), "parego-bo:final", what + ": the final records are not what was evaluated");
    mon::event("bo_runs");
    mon::sample(what);
}
// averaged over many updates no objective is preferred
static void symmetric()
{
    for (int m = 2; m <= 6; m++) {
        auto& w = weights(m);
        if (w.size() < 60)
            continue;
        VectorXd s = VectorXd::Zero(m);
        for (auto& l : w)
            s += l / w.size();
        // weights are in [0,1] with standard deviation below 0.35: 8 standard errors
        double tol = 8 * 0.35 / std::sqrt((double)w.size());
        mon::event("symmetry_checked");
        mon::check((s - VectorXd::Constant(m, 1. / m)).cwiseAbs().maxCoeff() < tol, "parego:weights-biased", mon::str("the mean of ", w.size(), " weight vectors is ", mon::vec(s)));
        double spread = 0;
        for (auto& l : w)
            spread = std::max(spread, (l - s).cwiseAbs().maxCoeff());
        mon::check(spread > 0.1, "parego:weights-concentrated", mon::str(w.size(), " weight vectors differ by at most ", spread));
    }
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    typedef limbo::model::GP<PP, limbo::kernel::MaternFiveHalves<PP>, limbo::mean::Data<PP>> GD;
    typedef limbo::model::GP<PP, limbo::kernel::Exp<PP>, limbo::mean::Constant<PP>> GC;
    using namespace limbo;
    using limbo::experimental::bayes_opt::Parego;
    using limbo::experimental::bayes_opt::parego_modelfun;
    typedef limbo::init::RandomSampling<PP> RS;
    mon::run_cases([](long c, mon::Rng& r) {
        switch (c % 4) {
        case 0: model_case<limbo::kernel::MaternFiveHalves<PP>, limbo::mean::Data<PP>>(r); break;
        case 1: model_case<limbo::kernel::Exp<PP>, limbo::mean::Constant<PP>>(r); break;
        case 2: bo_case<Parego<PP, parego_modelfun<GD>, acquifun<RecAcqui<limbo::experimental::model::GPParego<PP, GD>>>, acquiopt<fk::Opt>, stopcrit<Stop>, statsfun<fk::Stat<0>>>>(r, "GP<M52,Data>"); break;
        default: bo_case<Parego<PP, stopcrit<Stop>, acquifun<RecAcqui<limbo::experimental::model::GPParego<PP, GC>>>, acquiopt<fk::Opt>, initfun<RS>, parego_modelfun<GC>>>(r, "GP<Exp,Constant>"); break;
        }
    });
    symmetric();
    return mon::finish();
}
