// A stand-in for sferes2 (not installed here): the part of its interface limbo uses.
// The "evolution" evaluates seeded random individuals and keeps the best front.
#ifndef VERIF_SFERES_NSGA2
#define VERIF_SFERES_NSGA2
#include <algorithm>
#include <boost/fusion/include/vector.hpp>
#include <functional>
#include <memory>
#include <vector>
#define SFERES_CONST static constexpr
#define SFERES_FITNESS(C, P) \
    template <typename Exact = sferes::Itself> \
    class C : public P<Exact>
namespace sferes {
    struct Itself {
    };
    // how many individuals, and one coordinate of one individual
    inline int& shim_size()
    {
        static int n = 20;
        return n;
    }
    inline std::function<float()>& shim_gene()
    {
        static std::function<float()> f;
        return f;
    }
    namespace fit {
        template <typename Exact>
        class Fitness {
        public:
            const std::vector<float>& objs() const { return _objs; }
            float obj(size_t i) const { return _objs[i]; }

        protected:
            std::vector<float> _objs;
        };
        struct compare_objs_lex {
            template <typename I>
            bool operator()(const I& a, const I& b) const
            {
                return std::lexicographical_compare(b->fit().objs().begin(), b->fit().objs().end(), a->fit().objs().begin(), a->fit().objs().end());
            }
        };
    }
    namespace gen {
        namespace evo_float {
            enum mutation_t { polynomial = 0,
                gaussian,
                uniform };
            enum cross_over_t { recombination = 0,
                sbx };
        }
        template <int D, typename Params>
        struct EvoFloat {
            enum { size = D };
        };
    }
    namespace phen {
        template <typename Gen, typename Fit, typename Params>
        class Parameters {
        public:
            typedef Fit fit_t;
            Parameters()
            {
                for (int i = 0; i < (int)Gen::size; i++)
                    _v.push_back(Params::parameters::min + (Params::parameters::max - Params::parameters::min) * shim_gene()());
            }
            size_t size() const { return _v.size(); }
            float data(size_t i) const { return _v[i]; }
            Fit& fit() { return _fit; }
            const Fit& fit() const { return _fit; }

        private:
            std::vector<float> _v;
            Fit _fit;
        };
    }
    namespace eval {
        template <typename Params>
        struct Parallel {
        };
    }
    namespace modif {
        template <typename E = Itself>
        struct Dummy {
        };
    }
    namespace ea {
        template <typename Phen, typename Eval, typename Stat, typename Modifier, typename Params>
        class Nsga2 {
        public:
            typedef std::shared_ptr<Phen> indiv_t;
            void set_fit_proto(const typename Phen::fit_t& f) { _proto = f; }
            void run()
            {
                _pop.clear();
                for (int i = 0; i < shim_size(); i++) {
                    indiv_t p = std::make_shared<Phen>();
                    p->fit() = _proto;
                    p->fit().eval(*p);
                    _pop.push_back(p);
                }
            }
            std::vector<indiv_t> pareto_front() const
            {
                std::vector<indiv_t> out;
                for (auto& a : _pop) {
                    bool dom = false;
                    for (auto& b : _pop) {
                        bool ge = true, gt = false;
                        for (size_t k = 0; k < a->fit().objs().size(); k++) {
                            ge = ge && b->fit().obj(k) >= a->fit().obj(k);
                            gt = gt || b->fit().obj(k) > a->fit().obj(k);
                        }
                        dom = dom || (ge && gt);
                    }
                    if (!dom)
                        out.push_back(a);
                }
                return out;
            }

        private:
            typename Phen::fit_t _proto;
            std::vector<indiv_t> _pop;
        };
    }
}
#endif
