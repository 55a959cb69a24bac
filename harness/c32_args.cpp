// C32: named template arguments in every order and number; parameters
#ifdef USE_NLOPT_
#define USE_NLOPT
#endif
#include "bofake.hpp"
#include <limbo/limbo.hpp>
#if PART == 3
// before the others: a second set of keywords in one of these would hide those of limbo
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#endif
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
using namespace limbo;

struct P : public fk::Params {
    struct kernel : defaults::kernel {
    };
    struct kernel_exp : defaults::kernel_exp {
    };
    struct kernel_maternfivehalves : defaults::kernel_maternfivehalves {
    };
    struct kernel_squared_exp_ard : defaults::kernel_squared_exp_ard {
    };
    struct mean_constant : defaults::mean_constant {
    };
    struct acqui_ucb : defaults::acqui_ucb {
    };
    struct bayes_opt_cboptimizer : defaults::bayes_opt_cboptimizer {
    };
    struct bayes_opt_imgpo : defaults::bayes_opt_imgpo {
    };
    struct model_gp_parego : experimental::defaults::model_gp_parego {
    };
    struct opt_rprop : defaults::opt_rprop {
    };
#ifdef USE_LIBCMAES
    struct opt_cmaes : defaults::opt_cmaes {
    };
#endif
#ifdef USE_NLOPT
    struct opt_nloptnograd : defaults::opt_nloptnograd {
    };
#endif
};
// the components: they record that they were used
static std::map<std::string, int>& used()
{
    static std::map<std::string, int> u;
    return u;
}
struct UM : public fk::Model {
    UM() {}
    UM(int i, int o) : fk::Model(i, o) {}
    void add_sample(const Eigen::VectorXd& x, const Eigen::VectorXd& y)
    {
        used()["model"]++;
        fk::Model::add_sample(x, y);
    }
};
struct UCM {
};
struct UA : public fk::Acqui<fk::Model> {
    UA(const fk::Model& m, int it = 0) : fk::Acqui<fk::Model>(m, it) { used()["acqui"]++; }
};
struct UO : public fk::Opt {
    template <typename F>
    Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& i, bool b) const
    {
        used()["opt"]++;
        return fk::Opt::operator()(f, i, b);
    }
};
struct UI {
    template <typename S, typename A, typename O>
    void operator()(const S& s, const A& a, O& o) const
    {
        used()["init"]++;
        o.eval_and_add(s, Eigen::VectorXd::Constant(S::dim_in(), 0.25));
        o.eval_and_add(s, Eigen::VectorXd::Constant(S::dim_in(), 0.75));
    }
};
struct US {
    template <typename BO, typename A>
    void operator()(const BO&, const A&) { used()["stat"]++; }
};
struct UT {
    template <typename BO, typename A>
    bool operator()(const BO& bo, const A&) const
    {
        used()["stop"]++;
        return bo.current_iteration() >= 3;
    }
};
template <typename... L>
struct List {
};
template <typename X, typename... L>
struct Has;
template <typename X>
struct Has<X> : std::false_type {
};
template <typename X, typename H, typename... L>
struct Has<X, H, L...> : std::integral_constant<bool, std::is_same<X, H>::value || Has<X, L...>::value> {
};
typedef modelfun<UM> M_;
typedef acquifun<UA> A_;
typedef acquiopt<UO> O_;
typedef initfun<UI> I_;
typedef statsfun<US> S_;
typedef stopcrit<UT> T_;
typedef experimental::constraint_modelfun<UCM> C_;
typedef experimental::bayes_opt::parego_modelfun<UM> G_;
template <typename X>
struct Name {
    static std::string s() { return std::is_same<X, M_>::value ? "modelfun " : std::is_same<X, A_>::value ? "acquifun " : std::is_same<X, O_>::value ? "acquiopt " : std::is_same<X, I_>::value ? "initfun " : std::is_same<X, S_>::value ? "statsfun " : std::is_same<X, T_>::value ? "stopcrit " : std::is_same<X, C_>::value ? "constraint_modelfun " : "parego_modelfun "; }
};
template <typename... L>
std::string names()
{
    std::string o;
    using e = int[];
    (void)e{0, ((void)(o += Name<L>::s()), 0)...};
    return o;
}
// what is used when nothing is given
typedef model::GP<P> DM;
typedef acqui::UCB<P, DM> DA;
typedef init::RandomSampling<P> DI;
typedef boost::fusion::vector<limbo::stat::Samples<P>, limbo::stat::AggregatedObservations<P>, limbo::stat::ConsoleSummary<P>> DS;
typedef boost::fusion::vector<stop::MaxIterations<P>> DT;
#ifdef USE_NLOPT
typedef opt::NLOptNoGrad<P, nlopt::GN_DIRECT_L_RAND> DO;
#elif defined(USE_LIBCMAES)
typedef opt::Cmaes<P> DO;
#else
typedef opt::GridSearch<P> DO;
#endif
typedef model::GP<P, kernel::Exp<P>, mean::Constant<P>> DC;

template <typename B, typename Got, typename Given, typename Default, typename Kw, typename... L>
void one(const char* opt, const char* part)
{
    typedef typename std::conditional<Has<Kw, L...>::value, Given, Default>::type Want;
    bool ok = std::is_same<Got, Want>::value;
    if (!ok)
        mon::violation(mon::str("args:", opt, ":", part), mon::str(opt, "< ", names<L...>(), "> does not use the ", Has<Kw, L...>::value ? "given " : "default ", part));
}
template <typename X>
using Vec = typename std::conditional<boost::fusion::traits::is_sequence<X>::value, X, boost::fusion::vector<X>>::type;

template <int Kind, typename... L>
struct Check;
template <typename... L>
struct Check<0, L...> {
    static void run()
    {
        typedef bayes_opt::BOptimizer<P, L...> B;
        one<B, typename B::model_t, UM, DM, M_, L...>("BOptimizer", "model");
        one<B, typename B::acquisition_function_t, UA, DA, A_, L...>("BOptimizer", "acquisition function");
        one<B, typename B::acqui_optimizer_t, UO, DO, O_, L...>("BOptimizer", "acquisition maximiser");
        one<B, typename B::init_function_t, UI, DI, I_, L...>("BOptimizer", "initialisation");
        one<B, typename B::stat_t, Vec<US>, DS, S_, L...>("BOptimizer", "statistics");
        one<B, typename B::stopping_criteria_t, Vec<UT>, DT, T_, L...>("BOptimizer", "stopping criteria");
    }
};
template <typename... L>
struct Check<1, L...> {
    static void run()
    {
        typedef experimental::bayes_opt::CBOptimizer<P, L...> B;
        one<B, typename B::model_t, UM, DM, M_, L...>("CBOptimizer", "model");
        one<B, typename B::acquisition_function_t, UA, DA, A_, L...>("CBOptimizer", "acquisition function");
        one<B, typename B::acqui_optimizer_t, UO, DO, O_, L...>("CBOptimizer", "acquisition maximiser");
        one<B, typename B::init_function_t, UI, DI, I_, L...>("CBOptimizer", "initialisation");
        one<B, typename B::stat_t, Vec<US>, DS, S_, L...>("CBOptimizer", "statistics");
        one<B, typename B::stopping_criteria_t, Vec<UT>, DT, T_, L...>("CBOptimizer", "stopping criteria");
        one<B, typename B::constraint_model_t, UCM, DC, C_, L...>("CBOptimizer", "constraint model");
    }
};
template <typename... L>
struct Check<2, L...> {
    static void run()
    {
        typedef bayes_opt::experimental::IMGPO<P, L...> B;
        one<B, typename B::model_t, UM, DM, M_, L...>("IMGPO", "model");
        one<B, typename B::acquisition_function_t, UA, DA, A_, L...>("IMGPO", "acquisition function");
        one<B, typename B::init_function_t, UI, DI, I_, L...>("IMGPO", "initialisation");
        one<B, typename B::stat_t, Vec<US>, DS, S_, L...>("IMGPO", "statistics");
        one<B, typename B::stopping_criteria_t, Vec<UT>, DT, T_, L...>("IMGPO", "stopping criteria");
    }
};
template <typename... L>
struct Check<3, L...> {
    static void run()
    {
        typedef experimental::bayes_opt::Parego<P, L...> B;
        using experimental::model::GPParego;
        one<B, typename B::model_t, GPParego<P, UM>, GPParego<P, DM>, G_, L...>("Parego", "model");
        one<B, typename B::acquisition_function_t, UA, DA, A_, L...>("Parego", "acquisition function");
        one<B, typename B::acqui_optimizer_t, UO, DO, O_, L...>("Parego", "acquisition maximiser");
        one<B, typename B::init_function_t, UI, DI, I_, L...>("Parego", "initialisation");
        one<B, typename B::stat_t, Vec<US>, DS, S_, L...>("Parego", "statistics");
        one<B, typename B::stopping_criteria_t, Vec<UT>, DT, T_, L...>("Parego", "stopping criteria");
    }
};
// the shortcut with hyper-parameter optimisation: an alias, which takes no parameter pack
template <typename... L>
struct HP;
template <>
struct HP<> {
    typedef bayes_opt::BOptimizerHPOpt<P> type;
};
template <typename A>
struct HP<A> {
    typedef bayes_opt::BOptimizerHPOpt<P, A> type;
};
template <typename A, typename B>
struct HP<A, B> {
    typedef bayes_opt::BOptimizerHPOpt<P, A, B> type;
};
template <typename A, typename B, typename C>
struct HP<A, B, C> {
    typedef bayes_opt::BOptimizerHPOpt<P, A, B, C> type;
};
template <typename A, typename B, typename C, typename D>
struct HP<A, B, C, D> {
    typedef bayes_opt::BOptimizerHPOpt<P, A, B, C, D> type;
};
typedef model::GPOpt<P> HM;
typedef acqui::UCB<P, HM> HA;
template <typename... L>
struct Check<4, L...> {
    static void run()
    {
        typedef typename HP<L...>::type B;
        one<B, typename B::model_t, UM, HM, M_, L...>("BOptimizerHPOpt", "model");
        one<B, typename B::acquisition_function_t, UA, HA, A_, L...>("BOptimizerHPOpt", "acquisition function");
        one<B, typename B::acqui_optimizer_t, UO, DO, O_, L...>("BOptimizerHPOpt", "acquisition maximiser");
        one<B, typename B::init_function_t, UI, DI, I_, L...>("BOptimizerHPOpt", "initialisation");
        one<B, typename B::stat_t, Vec<US>, DS, S_, L...>("BOptimizerHPOpt", "statistics");
        one<B, typename B::stopping_criteria_t, Vec<UT>, DT, T_, L...>("BOptimizerHPOpt", "stopping criteria");
    }
};
#if PART == 3
template <typename... L>
struct Check<5, L...> {
    static void run()
    {
        typedef experimental::bayes_opt::Ehvi<P, L...> B;
        one<B, typename B::model_t, UM, DM, M_, L...>("Ehvi", "model");
        one<B, typename B::acquisition_function_t, UA, DA, A_, L...>("Ehvi", "acquisition function");
        one<B, typename B::acqui_optimizer_t, UO, DO, O_, L...>("Ehvi", "acquisition maximiser");
        one<B, typename B::init_function_t, UI, DI, I_, L...>("Ehvi", "initialisation");
        one<B, typename B::stat_t, Vec<US>, DS, S_, L...>("Ehvi", "statistics");
        one<B, typename B::stopping_criteria_t, Vec<UT>, DT, T_, L...>("Ehvi", "stopping criteria");
    }
};
template <typename... L>
struct Check<6, L...> {
    static void run()
    {
        typedef experimental::bayes_opt::Nsbo<P, L...> B;
        one<B, typename B::model_t, UM, DM, M_, L...>("Nsbo", "model");
        one<B, typename B::acquisition_function_t, UA, DA, A_, L...>("Nsbo", "acquisition function");
        one<B, typename B::init_function_t, UI, DI, I_, L...>("Nsbo", "initialisation");
        one<B, typename B::stat_t, Vec<US>, DS, S_, L...>("Nsbo", "statistics");
        one<B, typename B::stopping_criteria_t, Vec<UT>, DT, T_, L...>("Nsbo", "stopping criteria");
    }
};
#endif
template <int Kind, typename... L>
void checked()
{
    Check<Kind, L...>::run();
    mon::evaluation();
    mon::event("argument_lists");
    mon::event(mon::str("lists of ", sizeof...(L)));
    mon::distinct(mon::Hash().add(Kind).add(mon::hash_str(names<L...>())).h);
}
// every ordered selection of at most Max of the keywords
template <int Kind, int Max, typename Used, typename Before, typename After>
struct All;
template <int Kind, int Max, typename... U, typename... B>
struct All<Kind, Max, List<U...>, List<B...>, List<>> {
    static void go() {}
};
template <int Kind, int Max, typename... U, typename... B, typename H, typename... R>
struct All<Kind, Max, List<U...>, List<B...>, List<H, R...>> {
    template <int K, typename Dummy>
    struct Deeper {
        static void go() { All<Kind, Max, List<U..., H>, List<>, List<B..., R...>>::go(); }
    };
    template <typename Dummy>
    struct Deeper<0, Dummy> {
        static void go() {}
    };
    static void go()
    {
        checked<Kind, U..., H>();
        Deeper<Max - (int)sizeof...(U) - 1, void>::go();
        All<Kind, Max, List<U...>, List<B..., H>, List<R...>>::go();
    }
};
// rotations of the full list in both directions
template <int Kind, int N, typename L>
struct Rot;
template <int Kind, typename H, typename... L>
struct Rot<Kind, 0, List<H, L...>> {
    static void go() {}
};
template <int Kind, int N, typename H, typename... L>
struct Rot<Kind, N, List<H, L...>> {
    static void go()
    {
        checked<Kind, H, L...>();
        Rot<Kind, N - 1, List<L..., H>>::go();
    }
};

#if PART == 0
// every order and number for BOptimizer
static void lists()
{
    checked<0>();
    All<0, 3, List<>, List<>, List<M_, A_, O_, I_, S_, T_>>::go();
    Rot<0, 6, List<M_, A_, O_, I_, S_, T_>>::go();
    Rot<0, 6, List<T_, S_, I_, O_, A_, M_>>::go();
    Rot<0, 6, List<A_, T_, M_, S_, O_, I_>>::go();
    Rot<0, 6, List<O_, I_, T_, M_, S_, A_>>::go();
    Rot<0, 5, List<O_, I_, T_, M_, S_>>::go();
    Rot<0, 5, List<S_, O_, A_, M_, T_>>::go();
    Rot<0, 5, List<I_, M_, A_, O_, S_>>::go();
    Rot<0, 4, List<O_, T_, A_, M_>>::go();
    Rot<0, 4, List<T_, O_, S_, I_>>::go();
}
#elif PART == 1
// all orders of all six
static void lists()
{
    All<0, 6, List<M_>, List<>, List<A_, O_, I_, S_, T_>>::go();
    All<0, 6, List<O_>, List<>, List<A_, M_, I_, S_, T_>>::go();
}
#elif PART == 3
static void lists()
{
    checked<5>();
    All<5, 3, List<>, List<>, List<M_, A_, O_, I_, S_, T_>>::go();
    Rot<5, 6, List<M_, A_, O_, I_, S_, T_>>::go();
    Rot<5, 6, List<T_, S_, I_, O_, A_, M_>>::go();
    Rot<5, 5, List<S_, O_, A_, M_, T_>>::go();
    Rot<5, 4, List<O_, T_, A_, M_>>::go();
    checked<6>();
    All<6, 3, List<>, List<>, List<M_, A_, I_, S_, T_>>::go();
    Rot<6, 5, List<M_, A_, I_, S_, T_>>::go();
    Rot<6, 5, List<T_, S_, I_, A_, M_>>::go();
    Rot<6, 4, List<S_, M_, T_, I_>>::go();
    checked<3>();
    All<3, 3, List<>, List<>, List<G_, A_, O_, I_, S_, T_>>::go();
    checked<1>();
    All<1, 2, List<>, List<>, List<M_, A_, O_, I_, S_, T_, C_>>::go();
}
#else
static void lists()
{
    checked<4>();
    All<4, 4, List<>, List<>, List<O_, I_, S_, T_>>::go();
    checked<1>();
    All<1, 2, List<>, List<>, List<M_, A_, O_, I_, S_, T_, C_>>::go();
    Rot<1, 7, List<M_, A_, O_, I_, S_, T_, C_>>::go();
    Rot<1, 7, List<C_, T_, S_, I_, O_, A_, M_>>::go();
    Rot<1, 7, List<A_, C_, T_, M_, S_, O_, I_>>::go();
    Rot<1, 6, List<O_, C_, T_, M_, S_, A_>>::go();
    Rot<1, 6, List<C_, I_, T_, M_, S_, A_>>::go();
    Rot<1, 5, List<I_, C_, M_, T_, O_>>::go();
    checked<2>();
    All<2, 2, List<>, List<>, List<M_, A_, I_, S_, T_>>::go();
    Rot<2, 5, List<M_, A_, I_, S_, T_>>::go();
    Rot<2, 5, List<T_, S_, I_, A_, M_>>::go();
    checked<3>();
    All<3, 2, List<>, List<>, List<G_, A_, O_, I_, S_, T_>>::go();
    Rot<3, 5, List<G_, A_, O_, I_, S_>>::go();
    Rot<3, 5, List<T_, G_, O_, A_, S_>>::go();
    Rot<3, 5, List<S_, I_, T_, G_, A_>>::go();
    Rot<3, 4, List<O_, A_, G_, T_>>::go();
}
#endif

// ---- the given parts are the ones that run
template <typename B>
void runs(const std::string& n, std::vector<std::string> parts, mon::Rng& r)
{
    fk::set() = fk::Set();
    fk::set().dim_in = r.integer(1, 3);
    fk::set().samples = 4;
    fk::set().iterations = 5;
    fk::Fun::salt() = r.u64();
    fk::Fun::faults().clear();
    fk::Fun::calls() = 0;
    fk::tr().clear();
    used().clear();
    B bo;
    bo.optimize(fk::Fun());
    bool init = std::count(parts.begin(), parts.end(), "init"), stop = std::count(parts.begin(), parts.end(), "stop");
    int it = stop ? 3 : 5, ni = init ? 2 : 4;
    mon::evaluation();
    mon::event("runs");
    std::map<std::string, int> want;
    for (auto& p : parts)
        want[p] = p == "init" ? 1 : p == "stop" ? it + 1 : it;
    mon::check(used() == want && fk::Fun::calls() == ni + it, "args:run", mon::str(n, ": ", fk::Fun::calls(), " evaluations instead of ", ni + it, "; model ", used()["model"], " acqui ", used()["acqui"], " opt ", used()["opt"], " init ", used()["init"], " stat ", used()["stat"], " stop ", used()["stop"]));
}

// ---- parameters
struct DP {
    struct bayes_opt_bobase : defaults::bayes_opt_bobase {
        BO_PARAM(bool, stats_enabled, false);
        BO_DYN_PARAM(bool, bounded);
    };
    struct bayes_opt_boptimizer : defaults::bayes_opt_boptimizer {
        BO_DYN_PARAM(int, hp_period);
    };
    struct init_randomsampling {
        BO_DYN_PARAM(int, samples);
    };
    struct stop_maxiterations {
        BO_DYN_PARAM(int, iterations);
    };
    struct acqui_ucb {
        BO_DYN_PARAM(double, alpha);
    };
    struct acqui_ei {
        BO_DYN_PARAM(double, jitter);
    };
    struct kernel : defaults::kernel {
        BO_DYN_PARAM(double, noise);
    };
    struct kernel_exp : defaults::kernel_exp {
        BO_DYN_PARAM(double, l);
        BO_DYN_PARAM(double, sigma_sq);
    };
    struct mean_constant {
        BO_DYN_PARAM(double, constant);
    };
    struct opt_gridsearch {
        BO_DYN_PARAM(int, bins);
    };
    struct user {
        BO_PARAM(double, a, 1.5);
        BO_PARAM(int, neg, -3);
        BO_PARAM_ARRAY(double, arr, 0.5, -1.25, 3e-7, 42);
        BO_PARAM_ARRAY(int, one, 7);
        BO_PARAM_VECTOR(double, vec, 1, 2.5, -3.25);
        BO_PARAM_VECTOR(int, ivec, 4, 3, 2, 1, 0);
        BO_PARAM_STRING(str, "a string; with {braces}");
        BO_DYN_PARAM(double, d);
        BO_DYN_PARAM(std::string, s);
    };
    struct other {
        BO_DYN_PARAM(double, d);
    };
};
BO_DECLARE_DYN_PARAM(bool, DP::bayes_opt_bobase, bounded);
BO_DECLARE_DYN_PARAM(int, DP::bayes_opt_boptimizer, hp_period);
BO_DECLARE_DYN_PARAM(int, DP::init_randomsampling, samples);
BO_DECLARE_DYN_PARAM(int, DP::stop_maxiterations, iterations);
BO_DECLARE_DYN_PARAM(double, DP::acqui_ucb, alpha);
BO_DECLARE_DYN_PARAM(double, DP::acqui_ei, jitter);
BO_DECLARE_DYN_PARAM(double, DP::kernel, noise);
BO_DECLARE_DYN_PARAM(double, DP::kernel_exp, l);
BO_DECLARE_DYN_PARAM(double, DP::kernel_exp, sigma_sq);
BO_DECLARE_DYN_PARAM(double, DP::mean_constant, constant);
BO_DECLARE_DYN_PARAM(int, DP::opt_gridsearch, bins);
BO_DECLARE_DYN_PARAM(double, DP::user, d);
BO_DECLARE_DYN_PARAM(std::string, DP::user, s);
BO_DECLARE_DYN_PARAM(double, DP::other, d);

static int& hpcalls()
{
    static int c = 0;
    return c;
}
static std::vector<bool>& bounds_seen()
{
    static std::vector<bool> b;
    return b;
}
struct CountHP {
    template <typename GP>
    void operator()(GP&) { hpcalls()++; }
};
struct BOpt {
    template <typename F>
    Eigen::VectorXd operator()(const F& f, const Eigen::VectorXd& i, bool b) const
    {
        bounds_seen().push_back(b);
        f(i, false);
        return i;
    }
};
static int& evals()
{
    static int e = 0;
    return e;
}
struct DFun {
    BO_PARAM(size_t, dim_in, 2);
    BO_PARAM(size_t, dim_out, 1);
    Eigen::VectorXd operator()(const Eigen::VectorXd& x) const
    {
        evals()++;
        return tools::make_vector(-x.squaredNorm());
    }
};
static void params(mon::Rng& r)
{
    // static ones
    bool ok = DP::user::a() == 1.5 && DP::user::neg() == -3 && DP::user::arr_size() == 4 && DP::user::one_size() == 1 && DP::user::one(0) == 7;
    const double arr[] = {0.5, -1.25, 3e-7, 42};
    for (int i = 0; i < 4; i++)
        ok = ok && DP::user::arr(i) == arr[i];
    auto v = DP::user::vec();
    ok = ok && v.size() == 3 && v(0) == 1 && v(1) == 2.5 && v(2) == -3.25;
    auto w = DP::user::ivec();
    ok = ok && w.size() == 5;
    for (int i = 0; ok && i < 5; i++)
        ok = w(i) == 4 - i;
    ok = ok && std::string(DP::user::str()) == "a string; with {braces}";
    mon::check(ok, "params:static", "a fixed, array, vector or string parameter does not return what it was defined with");
    // what is set is read, and only there
    double a = r.range(-1e3, 1e3), b = r.range(-1, 1);
    std::string s(r.integer(0, 50), 'x');
    DP::user::set_d(a);
    DP::other::set_d(b);
    DP::user::set_s(s);
    mon::check(DP::user::d() == a && DP::other::d() == b && DP::user::s() == s, "params:dynamic", "a parameter set at run time is not read back");
    // components read the current value
    DP::kernel::set_noise(r.logrange(1e-4, 0.3));
    DP::kernel_exp::set_l(r.range(0.1, 2));
    DP::kernel_exp::set_sigma_sq(r.range(0.1, 4));
    DP::mean_constant::set_constant(r.range(-3, 3));
    Eigen::VectorXd x = Eigen::VectorXd::Random(2), y = Eigen::VectorXd::Random(2);
    typedef model::GP<DP, kernel::Exp<DP>, mean::Constant<DP>, CountHP> G;
    kernel::Exp<DP> k(2);
    double want = DP::kernel_exp::sigma_sq() * std::exp(-(x - y).squaredNorm() / (2 * std::pow(DP::kernel_exp::l(), 2)));
    mon::check(mon::rel(k(x, y), want, 1e-10) && mon::rel(k.noise(), DP::kernel::noise(), 1e-12), "params:kernel", mon::str("a kernel built after its parameters were set gives ", k(x, y), " instead of ", want));
    G gp(2, 1);
    gp.compute({x, y}, {Eigen::VectorXd::Constant(1, 1.), Eigen::VectorXd::Constant(1, -1.)});
    Eigen::VectorXd far = Eigen::VectorXd::Constant(2, 1e4);
    mon::check(mon::near(gp.mu(far)(0), DP::mean_constant::constant(), 1e-9), "params:mean", "the constant mean is not the one set");
    // an acquisition function follows a parameter changed after it was built
    acqui::UCB<DP, G> ucb(gp, 0);
    acqui::EI<DP, G> ei(gp, 0);
    Eigen::VectorXd q = Eigen::VectorXd::Random(2);
    for (int i = 0; i < 3; i++) {
        DP::acqui_ucb::set_alpha(r.range(0, 5));
        double u = opt::fun(ucb(q, FirstElem(), false));
        double wu = gp.mu(q)(0) + DP::acqui_ucb::alpha() * std::sqrt(gp.sigma(q));
        mon::check(mon::rel(u, wu, 1e-10), "params:ucb", mon::str("UCB with alpha ", DP::acqui_ucb::alpha(), " gives ", u, " instead of ", wu));
        DP::acqui_ei::set_jitter(r.range(0, 0.5));
        double fm = std::max(gp.mu(x)(0), gp.mu(y)(0)), sd = std::sqrt(gp.sigma(q));
        double X = gp.mu(q)(0) - fm - DP::acqui_ei::jitter(), Z = X / sd;
        double we = X * 0.5 * std::erfc(-Z / std::sqrt(2)) + sd * std::exp(-Z * Z / 2) / std::sqrt(2 * M_PI);
        mon::check(mon::near(opt::fun(ei(q, FirstElem(), false)), we, 1e-10), "params:ei", "EI does not use its current jitter");
    }
    // the inner optimiser
    DP::opt_gridsearch::set_bins(r.integer(1, 6));
    int cnt = 0;
    opt::GridSearch<DP>()([&](const Eigen::VectorXd& p, bool) { cnt++; return opt::no_grad(p.sum()); }, Eigen::VectorXd::Constant(1, 0.5), true);
    mon::check(cnt >= DP::opt_gridsearch::bins() && cnt <= DP::opt_gridsearch::bins() + 1, "params:grid", mon::str(cnt, " evaluations with ", DP::opt_gridsearch::bins(), " bins"));
    // a whole run, changed between and during runs
    typedef bayes_opt::BOptimizer<DP, modelfun<G>, acquifun<acqui::UCB<DP, G>>, acquiopt<BOpt>, statsfun<fk::Stat<0>>> B;
    B bo;
    for (int k2 = 0; k2 < 3; k2++) {
        DP::bayes_opt_bobase::set_bounded(r.coin());
        DP::bayes_opt_boptimizer::set_hp_period(r.coin(0.3) ? -1 : r.integer(1, 3));
        DP::init_randomsampling::set_samples(r.integer(1, 6));
        DP::stop_maxiterations::set_iterations(r.integer(0, 6));
        evals() = hpcalls() = 0;
        bounds_seen().clear();
        bo.optimize(DFun());
        int n = DP::stop_maxiterations::iterations(), hp = DP::bayes_opt_boptimizer::hp_period();
        mon::check(evals() == DP::init_randomsampling::samples() + n, "params:run-length", mon::str(evals(), " evaluations with ", DP::init_randomsampling::samples(), " samples and ", n, " iterations"));
        mon::check(hpcalls() == (hp > 0 ? n / hp : 0), "params:hp-period", mon::str(hpcalls(), " hyper-parameter optimisations with period ", hp, " in ", n, " iterations"));
        mon::check((int)bounds_seen().size() == n && std::count(bounds_seen().begin(), bounds_seen().end(), DP::bayes_opt_bobase::bounded()) == n, "params:bounded", "the current value of bounded is not handed to the maximiser");
        mon::event("dynamic_runs");
    }
    mon::evaluation();
    mon::distinct(mon::Hash().addd(a).addd(b).h);
    mon::event("parameter_cases");
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    lists();
    mon::run_cases([](long c, mon::Rng& r) {
#if PART < 2
        using bayes_opt::BOptimizer;
        runs<BOptimizer<P, M_, A_, O_, I_, S_, T_>>("model acqui opt init stat stop", {"model", "acqui", "opt", "init", "stat", "stop"}, r);
        runs<BOptimizer<P, T_, S_, I_, O_, A_, M_>>("stop stat init opt acqui model", {"model", "acqui", "opt", "init", "stat", "stop"}, r);
        runs<BOptimizer<P, O_, A_, T_, S_, M_, I_>>("opt acqui stop stat model init", {"model", "acqui", "opt", "init", "stat", "stop"}, r);
        runs<BOptimizer<P, S_, O_, M_, A_>>("stat opt model acqui", {"model", "acqui", "opt", "stat"}, r);
        runs<BOptimizer<P, A_, M_, T_, O_, S_>>("acqui model stop opt stat", {"model", "acqui", "opt", "stat", "stop"}, r);
        runs<BOptimizer<P, O_, I_, A_, M_, S_>>("opt init acqui model stat", {"model", "acqui", "opt", "init", "stat"}, r);
#endif
        params(r);
    });
    mon::sample(mon::str("argument lists such as BOptimizer< ", names<T_, O_, M_, A_>(), ">"));
    return mon::finish();
}
