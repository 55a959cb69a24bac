// C17/C19 with the real components: whatever the loop did, the model the
// optimiser exposes is the exact posterior of what the user's function saw.
#include "gpkit.hpp"
#include <limbo/acqui/ei.hpp>
#include <limbo/acqui/gp_ucb.hpp>
#include <limbo/acqui/ucb.hpp>
#include <limbo/bayes_opt/boptimizer.hpp>
#include <limbo/init/lhs.hpp>
#include <limbo/model/gp/kernel_lf_opt.hpp>
#include <limbo/model/gp/kernel_mean_lf_opt.hpp>
#include <limbo/model/gp/mean_lf_opt.hpp>
#include <limbo/opt/chained.hpp>
#include <limbo/opt/parallel_repeater.hpp>
#include <limbo/opt/random_point.hpp>
#include <limbo/opt/rprop.hpp>
#include <limbo/stop/max_iterations.hpp>
using namespace kit;
using namespace limbo;
struct Run {
    int dim_in = 1, dim_out = 1, iters = 5, hp = -1, samples = 4;
} R;
struct P : kit::Params {
    struct bayes_opt_bobase {
        static bool stats_enabled() { return false; }
        static bool bounded() { return true; }
    };
    struct bayes_opt_boptimizer {
        static int hp_period() { return R.hp; }
    };
    struct stop_maxiterations {
        static int iterations() { return R.iters; }
    };
    struct init_lhs {
        static int samples() { return R.samples; }
    };
    struct init_randomsampling : init_lhs {
    };
    struct acqui_ucb {
        static double alpha() { return 0.5; }
    };
    struct acqui_gpucb {
        static constexpr double delta() { return 0.1; }
    };
    struct acqui_ei {
        static double jitter() { return 0.; }
    };
    struct opt_parallelrepeater {
        static int repeats() { return 3; }
        static double epsilon() { return 0.1; }
    };
    struct opt_gridsearch {
        static int bins() { return 4; }
    };
};
std::vector<std::pair<VectorXd, VectorXd>> seen;
struct Fun {
    static size_t dim_in() { return R.dim_in; }
    static size_t dim_out() { return R.dim_out; }
    VectorXd operator()(const VectorXd& x) const
    {
        VectorXd y(R.dim_out);
        for (int o = 0; o < y.size(); o++)
            y(o) = std::sin(3 * x.sum() + o) + (x.array() - 0.3).matrix().squaredNorm() * (o - 0.5);
        seen.push_back({x, y});
        return y;
    }
};
template <typename BO, typename GP>
void one(mon::Rng& r, const char* name)
{
    BO bo;
    int runs = r.integer(1, 3);
    for (int k = 0; k < runs; k++) {
        bool reset = k == 0 || r.coin(0.4);
        R.iters = r.integer(0, 7);
        R.hp = r.pick(std::vector<int>{-1, 1, 2, 3});
        if (reset)
            seen.clear();
        bo.optimize(Fun(), FirstElem(), reset);
        std::string w = mon::str(name, " run ", k, reset ? " reset" : " continued", " it=", R.iters, " hp=", R.hp, " in=", R.dim_in, " out=", R.dim_out);
        bool ok = bo.samples().size() == seen.size() && bo.observations().size() == seen.size();
        for (size_t i = 0; ok && i < seen.size(); i++)
            ok = bo.samples()[i] == seen[i].first && bo.observations()[i] == seen[i].second;
        if (!mon::check(ok, "real-records", mon::str(bo.samples().size(), " samples of ", seen.size(), " evaluations ", w)))
            return;
        if (seen.empty())
            continue;
        // a model built at once from the same data with the same hyper-parameters
        Vs X = bo.samples(), Y = bo.observations();
        GP fresh(R.dim_in, R.dim_out);
        fresh.kernel_function().set_h_params(bo.model().kernel_function().h_params());
        fresh.mean_function().set_h_params(bo.model().mean_function().h_params());
        fresh.compute(X, Y);
        double worst = 0;
        for (int q = 0; q < 6; q++) {
            VectorXd x(R.dim_in);
            for (int i = 0; i < x.size(); i++)
                x(i) = r.unit();
            if (q == 0)
                x = X[r.u64() % X.size()];
            auto a = bo.model().query(x);
            auto b = fresh.query(x);
            double s = 1 + std::get<0>(b).norm();
            double d = std::max((std::get<0>(a) - std::get<0>(b)).norm() / s, std::fabs(std::get<1>(a) - std::get<1>(b)) / (1 + std::get<1>(b)));
            // conditioning of what the two ways of factorising may differ by
            double cond = std::exp(2 * bo.model().kernel_function().h_params().cwiseAbs().maxCoeff());
            worst = std::max(worst, d);
            mon::check(d < 1e-6 * (1 + cond), "real-model", mon::str("prediction ", mon::vec(std::get<0>(a)), " / ", std::get<1>(a), " instead of ", mon::vec(std::get<0>(b)), " / ", std::get<1>(b), " at ", mon::vec(x), " ", w));
            mon::evaluation();
        }
        mon::check(bo.current_iteration() == R.iters, "real-iterations", w);
        mon::event(mon::str("real runs: ", name));
        mon::event("real evaluations", seen.size());
        double b = -1e300;
        for (auto& y : Y)
            b = std::max(b, y(0));
        mon::check(bo.best_observation()(0) == b, "real-best", w);
        mon::distinct(mon::Hash().add(mon::hash_str(name)).addv(X.back()).addv(bo.model().kernel_function().h_params()).h);
        mon::sample(mon::str(w, " ", seen.size(), " evaluations, largest difference to a fresh model ", worst));
    }
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    std::cout.setstate(std::ios::failbit);
    mon::run_cases([&](long, mon::Rng& r) {
        cfg() = Cfg();
        cfg().noise = r.logrange(1e-3, 0.1);
        cfg().opt_noise = r.coin(0.3);
        cfg().l = r.range(0.3, 1.5);
        cfg().rprop_iter = 15;
        R.dim_in = r.integer(1, 3);
        R.dim_out = r.integer(1, 2);
        R.samples = r.integer(1, 5);
        typedef opt::Rprop<P> Ro;
#if COMBO == 0
        typedef model::GP<P, kernel::SquaredExpARD<P>, mean::Data<P>, model::gp::KernelLFOpt<P, Ro>> GP0;
        typedef model::GP<P, kernel::MaternFiveHalves<P>, mean::Constant<P>, model::gp::KernelMeanLFOpt<P, Ro>> GP1;
        if (r.coin())
            one<bayes_opt::BOptimizer<P, modelfun<GP0>, acquifun<acqui::UCB<P, GP0>>, acquiopt<opt::RandomPoint<P>>, initfun<init::LHS<P>>>, GP0>(r, "GP se data kernel-opt ucb");
        else
            one<bayes_opt::BOptimizer<P, modelfun<GP1>, acquifun<acqui::EI<P, GP1>>, acquiopt<opt::GridSearch<P>>>, GP1>(r, "GP m52 constant kernel-mean-opt ei");
#else
        typedef model::GP<P, kernel::Exp<P>, mean::Constant<P>, model::gp::MeanLFOpt<P, Ro>> GP2;
        typedef model::GP<P, kernel::MaternThreeHalves<P>, mean::FunctionARD<P, mean::NullFunction<P>>, model::gp::KernelLFOpt<P, opt::Chained<P, Ro, Ro>>> GP3;
        if (r.coin())
            one<bayes_opt::BOptimizer<P, modelfun<GP2>, acquifun<acqui::GP_UCB<P, GP2>>, acquiopt<opt::RandomPoint<P>>>, GP2>(r, "GP exp constant mean-opt gp-ucb");
        else
            one<bayes_opt::BOptimizer<P, modelfun<GP3>, acquifun<acqui::UCB<P, GP3>>, acquiopt<opt::Chained<P, opt::GridSearch<P>, opt::RandomPoint<P>>>, initfun<init::LHS<P>>>, GP3>(r, "GP m32 ard kernel-opt ucb");
#endif
    });
    return mon::finish();
}
