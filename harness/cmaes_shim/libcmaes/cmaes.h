// Stand-in for libcmaes: the interface limbo uses, an evolution strategy simple
// enough to be judged, and a record of everything it was asked.
#ifndef VERIF_CMAES_H
#define VERIF_CMAES_H
#include <Eigen/Core>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <random>
#include <thread>
#include <vector>

typedef Eigen::VectorXd dVec;

enum { CMAES_DEFAULT = 0, IPOP_CMAES = 1, BIPOP_CMAES = 2, aCMAES = 3, aIPOP_CMAES = 4, aBIPOP_CMAES = 5, sepCMAES = 6, sepIPOP_CMAES = 7, sepBIPOP_CMAES = 8, sepaCMAES = 9, sepaIPOP_CMAES = 10, sepaBIPOP_CMAES = 11, VD_CMAES = 12, VD_IPOP_CMAES = 13, VD_BIPOP_CMAES = 14 };

namespace libcmaes {
    enum CMAStopCritType { CONT = 0,
        AUTOMAXITER = 10,
        TOLHISTFUN = 1,
        EQUALFUNVALS = 5,
        TOLX = 2,
        TOLUPSIGMA = -20,
        STAGNATION = 6,
        CONDITIONCOV = -15,
        NOEFFECTAXIS = 11,
        NOEFFECTCOOR = 12,
        MAXFEVALS = 7,
        MAXITER = 8,
        FTARGET = 9 };

    typedef std::function<double(const double*, const int& n)> FitFunc;

    // what a run was given and what it did
    struct Record {
        bool bounded = false;
        int dim = 0;
        dVec x0, lb, ub; // x0 as a genotype
        double sigma = 0;
        int lambda = 0;
        uint64_t seed = 0;
        std::map<int, bool> crit;
        std::map<std::string, double> set;
        std::vector<dVec> geno, pheno; // evaluated, in order
        std::vector<double> value; // what the function returned
        dVec best, mean; // genotypes handed back
        int progress = 0; // calls of the default progress function
    };
    // seeded behaviour of the stand-in
    struct Ctl {
        std::vector<Record> runs;
        uint64_t seed = 1;
        int iterations = 4, threads = 1;
        double spread = 1; // of the proposals, in units of sigma
        int best_first = 0;
    };
    inline Ctl& ctl()
    {
        static Ctl c;
        return c;
    }

    class NoBoundStrategy {
    public:
        NoBoundStrategy(const double* = nullptr, const double* = nullptr, int = 0) {}
        enum { bounded = 0 };
        dVec lb, ub;
        dVec to(const dVec& x) const { return x; }
        dVec from(const dVec& x) const { return x; }
    };
    // piecewise quadratic transformation into the bounds
    class pwqBoundStrategy {
    public:
        enum { bounded = 1 };
        dVec lb, ub;
        pwqBoundStrategy() {}
        pwqBoundStrategy(const double* l, const double* u, int dim) : lb(Eigen::Map<const dVec>(l, dim)), ub(Eigen::Map<const dVec>(u, dim)) {}
        dVec to(const dVec& g) const
        {
            dVec x(g);
            for (int i = 0; i < g.size() && i < lb.size(); i++) {
                double l = lb(i), u = ub(i), al = std::min((u - l) / 2, (1 + std::fabs(l)) / 20), au = std::min((u - l) / 2, (1 + std::fabs(u)) / 20), y = g(i);
                double xl = l - 2 * al - (u - l) / 2, xu = u + 2 * au + (u - l) / 2, r = 2 * (u - l + al + au);
                if (y < xl)
                    y += r * (1 + std::floor((xl - y) / r));
                if (y > xu)
                    y -= r * (1 + std::floor((y - xu) / r));
                if (y < l - al)
                    y += 2 * (l - al - y);
                if (y > u + au)
                    y -= 2 * (y - u - au);
                if (y < l + al)
                    y = l + (y - (l - al)) * (y - (l - al)) / 4 / al;
                else if (!(y < u - au))
                    y = u - (y - (u + au)) * (y - (u + au)) / 4 / au;
                x(i) = std::min(u, std::max(l, y));
            }
            return x;
        }
        dVec from(const dVec& p) const
        {
            dVec y(p);
            for (int i = 0; i < p.size() && i < lb.size(); i++) {
                double l = lb(i), u = ub(i), al = std::min((u - l) / 2, (1 + std::fabs(l)) / 20), au = std::min((u - l) / 2, (1 + std::fabs(u)) / 20);
                if (p(i) < l + al)
                    y(i) = (l - al) + 2 * std::sqrt(al * (p(i) - l));
                else if (!(p(i) < u - au))
                    y(i) = (u + au) - 2 * std::sqrt(au * (u - p(i)));
            }
            return y;
        }
    };
    class NoScalingStrategy {
    };
    template <class TBound = NoBoundStrategy, class TScaling = NoScalingStrategy>
    class GenoPheno {
    public:
        GenoPheno() {}
        GenoPheno(const double* l, const double* u, const int& dim) : _b(l, u, dim) {}
        dVec pheno(const dVec& c) const { return _b.to(c); }
        dVec geno(const dVec& c) const { return _b.from(c); }
        TBound get_boundstrategy() const { return _b; }
        TBound _b;
    };

    template <class GP = GenoPheno<NoBoundStrategy>>
    class CMAParameters {
    public:
        CMAParameters() {}
        CMAParameters(const int& dim, const double* x0, const double& sigma, const int& lambda = -1, const uint64_t& seed = 0, const GP& gp = GP())
        {
            init(dim, x0, sigma, lambda, seed, gp);
        }
        CMAParameters(const std::vector<double>& x0, const double& sigma, const int& lambda = -1, const uint64_t& seed = 0, const GP& gp = GP())
        {
            init(x0.size(), x0.data(), sigma, lambda, seed, gp);
        }
#define VERIF_SET(name, type) \
    void set_##name(const type& v) { _r.set[#name] = v; }
        VERIF_SET(mt_feval, bool)
        VERIF_SET(algo, int)
        VERIF_SET(restarts, int)
        VERIF_SET(elitism, int)
        VERIF_SET(max_fevals, double)
        VERIF_SET(max_iter, double)
        VERIF_SET(ftolerance, double)
        VERIF_SET(xtolerance, double)
        VERIF_SET(ftarget, double)
        VERIF_SET(initial_fvalue, bool)
        VERIF_SET(uh, bool)
        VERIF_SET(quiet, bool)
        VERIF_SET(edm, bool)
        VERIF_SET(noisy, bool)
        VERIF_SET(maximize, bool)
#undef VERIF_SET
        void set_stopping_criteria(const int& c, const bool& active) { _r.crit[c] = active; }
        void set_seed(const int& s) { _r.seed = s; }
        int dim() const { return _r.dim; }
        int lambda() const { return _r.lambda; }
        int get_algo() const { return get("algo"); }
        bool get_mt_feval() const { return get("mt_feval"); }
        bool quiet() const { return get("quiet"); }
        GP& get_gp() { return _gp; }
        const GP& get_gp() const { return _gp; }
        double get(const std::string& k) const { return _r.set.count(k) ? _r.set.at(k) : 0; }
        Record _r;
        GP _gp;

    protected:
        void init(int dim, const double* x0, double sigma, int lambda, uint64_t seed, const GP& gp)
        {
            _gp = gp;
            _r.dim = dim;
            _r.x0 = Eigen::Map<const dVec>(x0, dim);
            _r.sigma = sigma;
            _r.lambda = lambda;
            _r.seed = seed;
            _r.bounded = decltype(gp._b)::bounded;
            _r.lb = gp._b.lb;
            _r.ub = gp._b.ub;
        }
    };

    class Candidate {
    public:
        Candidate() : _f(std::nan("")) {}
        Candidate(const double& f, const dVec& x) : _f(f), _x(x) {}
        double get_fvalue() const { return _f; }
        dVec get_x_dvec() const { return _x; }
        const dVec& get_x_dvec_ref() const { return _x; }
        const double* get_x_ptr() const { return _x.data(); }
        std::vector<double> get_x() const { return std::vector<double>(_x.data(), _x.data() + _x.size()); }
        unsigned int get_x_size() const { return _x.size(); }
        template <class GP>
        dVec get_x_pheno_dvec(const CMAParameters<GP>& p) const { return p.get_gp().pheno(_x); }

    private:
        double _f;
        dVec _x;
    };
    class CMASolutions {
    public:
        Candidate best_candidate() const { return _last; }
        const Candidate& get_best_seen_candidate() const { return _best; }
        const Candidate& get_worst_seen_candidate() const { return _worst; }
        Candidate get_candidate(int i) const { return _candidates[i]; }
        std::vector<Candidate> candidates() const { return _candidates; }
        dVec xmean() const { return _mean; }
        int fevals() const { return _fevals; }
        int niter() const { return _niter; }
        int run_status() const { return 1; }
        double sigma() const { return 1; }
        Candidate _last, _best, _worst;
        std::vector<Candidate> _candidates;
        dVec _mean;
        int _fevals = 0, _niter = 0;
    };
    template <class GP>
    using ProgressFunc = std::function<int(const CMAParameters<GP>&, const CMASolutions&)>;

    class CovarianceUpdate {
    };
    inline int& default_progress()
    {
        static int n = 0;
        return n;
    }
    template <class TCovarianceUpdate, class GP = GenoPheno<NoBoundStrategy>>
    class CMAStrategy {
    public:
        static ProgressFunc<GP> _defaultPFunc;
    };
    template <class C, class GP>
    ProgressFunc<GP> CMAStrategy<C, GP>::_defaultPFunc = [](const CMAParameters<GP>&, const CMASolutions&) {
        default_progress()++;
        return 0;
    };

    template <class GP = GenoPheno<NoBoundStrategy>>
    CMASolutions cmaes(FitFunc& f, CMAParameters<GP>& p, ProgressFunc<GP>& progress = CMAStrategy<CovarianceUpdate, GP>::_defaultPFunc)
    {
        Ctl& c = ctl();
        Record r = p._r;
        std::mt19937 g(c.seed++ * 7919 + 13);
        std::normal_distribution<double> n(0, 1);
        CMASolutions s;
        int prog0 = default_progress();
        dVec mean = r.x0;
        int lambda = r.lambda > 0 ? r.lambda : 4 + (int)(3 * std::log((double)std::max(1, r.dim)));
        double budget = p.get("max_fevals");
        auto eval = [&](const std::vector<dVec>& xs, std::vector<double>& v) {
            v.assign(xs.size(), 0);
            std::vector<dVec> ph;
            for (auto& x : xs)
                ph.push_back(p.get_gp().pheno(x));
            auto part = [&](size_t a, size_t step) {
                for (size_t i = a; i < xs.size(); i += step)
                    v[i] = f(ph[i].data(), (int)ph[i].size());
            };
            size_t nt = p.get_mt_feval() ? (size_t)c.threads : 1;
            if (nt <= 1)
                part(0, 1);
            else {
                std::vector<std::thread> th;
                for (size_t t = 0; t < nt; t++)
                    th.emplace_back(part, t, nt);
                for (auto& t : th)
                    t.join();
            }
            for (size_t i = 0; i < xs.size(); i++) {
                r.geno.push_back(xs[i]);
                r.pheno.push_back(ph[i]);
                r.value.push_back(v[i]);
                s._fevals++;
                if (s._fevals == 1 || v[i] < s._best.get_fvalue())
                    s._best = Candidate(v[i], xs[i]);
                if (s._fevals == 1 || v[i] > s._worst.get_fvalue())
                    s._worst = Candidate(v[i], xs[i]);
            }
        };
        std::vector<double> v;
        if (p.get("initial_fvalue"))
            eval({r.x0}, v);
        double sd = r.sigma * c.spread;
        for (int it = 0; it < c.iterations; it++) {
            std::vector<dVec> xs;
            for (int k = 0; k < lambda && (s._fevals + (int)xs.size() < budget || it + k == 0); k++) {
                dVec x = mean;
                for (int i = 0; i < r.dim; i++)
                    x(i) += sd * n(g);
                xs.push_back(x);
            }
            if (xs.empty())
                break;
            eval(xs, v);
            s._candidates.clear();
            size_t b = 0;
            for (size_t i = 0; i < xs.size(); i++) {
                s._candidates.push_back(Candidate(v[i], xs[i]));
                if (v[i] < v[b])
                    b = i;
            }
            s._last = s._candidates[b];
            mean = 0.5 * mean + 0.5 * xs[b];
            sd *= 0.8;
            s._mean = mean;
            s._niter++;
            if (progress && progress(p, s))
                break;
        }
        // the last population is worse than what was seen before: the best is not the latest
        s._mean = mean;
        r.best = s._best.get_x_dvec();
        r.mean = mean;
        r.progress = default_progress() - prog0;
        c.runs.push_back(r);
        return s;
    }
}
#endif
