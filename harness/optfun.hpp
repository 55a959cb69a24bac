// recorded objective functions for the inner optimisers
#ifndef VERIF_OPTFUN_HPP
#define VERIF_OPTFUN_HPP
#include "mon.hpp"
#include <Eigen/Core>
#include <limbo/opt/optimizer.hpp>
namespace of {
    using Eigen::VectorXd;
    struct Cfg {
        int iters = 50, bins = 4, repeats = 5;
        double eps = 0, alpha = 0.01, b1 = 0.9, b2 = 0.999, gamma = 0.5, radius = 0.1, ftol = -1, xtol = -1;
        bool nesterov = false;
        static Cfg random(mon::Rng& r)
        {
            Cfg c;
            c.iters = r.coin(0.05) ? 1 : r.integer(2, 150);
            c.bins = r.coin(0.5) ? r.integer(1, 12) : r.pick(std::vector<int>{10, 20, 6, 7, 13, 15});
            c.repeats = r.integer(1, 12);
            c.eps = r.coin(0.6) ? 0. : r.logrange(1e-8, 0.1);
            c.alpha = r.coin(0.1) ? 0. : r.logrange(1e-4, 3);
            c.b1 = r.coin(0.1) ? 0. : r.range(0, 0.99);
            c.b2 = r.coin(0.1) ? 0. : r.range(0, 0.9999);
            c.gamma = r.coin(0.3) ? 0. : r.range(0, 0.95);
            c.nesterov = r.coin();
            c.radius = r.coin(0.3) ? r.logrange(1e-6, 1e-2) : r.range(0.01, 1.5);
            c.ftol = r.coin(0.7) ? -1 : r.logrange(1e-10, 1e-2);
            c.xtol = r.coin(0.7) ? -1 : r.logrange(1e-10, 1e-2);
            return c;
        }
        std::string describe() const
        {
            return mon::str("{it=", iters, " bins=", bins, " rep=", repeats, " eps=", eps, " a=", alpha, " b1=", b1, " b2=", b2, " g=", gamma, " nest=", nesterov, " rad=", radius, " ftol=", ftol, " xtol=", xtol, "}");
        }
    };
    inline Cfg& c()
    {
        static Cfg x;
        return x;
    }
    struct Call {
        VectorXd x, g;
        double v;
        bool grad;
    };
    inline std::vector<Call>& log()
    {
        static std::vector<Call> l;
        return l;
    }
    struct Fn {
        int kind = 0, n = 1;
        VectorXd a, b, w;
        double off = 0, scale = 1;
        static Fn random(mon::Rng& r, int n, bool smooth = false)
        {
            Fn f;
            f.n = n;
            f.kind = r.integer(0, smooth ? 4 : 8);
            f.a = f.b = f.w = VectorXd(n);
            for (int i = 0; i < n; i++) {
                f.a(i) = r.coin(0.7) ? r.unit() : r.range(-2, 3);
                f.b(i) = r.range(-3, 3);
                f.w(i) = r.logrange(0.05, 20);
            }
            f.off = r.coin(0.5) ? 0 : r.coin() ? -r.logrange(1, 1e6) : r.range(-5, 5);
            f.scale = r.coin(0.6) ? 1 : r.logrange(1e-3, 1e3);
            return f;
        }
        double raw(const VectorXd& x, VectorXd* g) const
        {
            double v = 0;
            if (g)
                *g = VectorXd::Zero(n);
            for (int i = 0; i < n; i++) {
                double d = x(i) - a(i);
                switch (kind) {
                case 9: // out of the range of float
                    v += -1e200 * (1 + d * d);
                    break;
                case 10: // nothing is better than anything
                    v = w(0) > 1 ? -std::numeric_limits<double>::infinity() : x(0) > a(0) ? NAN : -std::numeric_limits<double>::infinity();
                    break;
                case 0: // concave
                    v -= w(i) * d * d;
                    if (g)
                        (*g)(i) = -2 * w(i) * d;
                    break;
                case 1: // many maxima
                    v += std::cos(5 * d + b(i)) - 0.3 * d * d;
                    if (g)
                        (*g)(i) = -5 * std::sin(5 * d + b(i)) - 0.6 * d;
                    break;
                case 2: // linear, maximum in a corner
                    v += b(i) * x(i) * w(i);
                    if (g)
                        (*g)(i) = b(i) * w(i);
                    break;
                case 3: // bump: nearly flat far from it
                    v += 1. / (1 + w(i) * d * d);
                    if (g)
                        (*g)(i) = -2 * w(i) * d / std::pow(1 + w(i) * d * d, 2);
                    break;
                case 4: // an arbitrary gradient which is not the one of the value
                    v += std::sin(3 * x(i) + b(i));
                    if (g)
                        (*g)(i) = std::cos(40 * x(i) * w(i) + b(i));
                    break;
                case 5: // plateaus
                    v += std::floor(4 * x(i) + b(i));
                    if (g)
                        (*g)(i) = b(i);
                    break;
                case 6: // constant
                    v = 0;
                    break;
                case 7: // step
                    v += d > 0 ? 1 + 0.1 * x(i) : -x(i);
                    if (g)
                        (*g)(i) = d > 0 ? 0.1 : -1;
                    break;
                case 8: // few values, many ties
                    v += (int)(mon::Hash().add((uint64_t)std::llround(std::min(std::max(x(i), -1e9), 1e9) * 64)).h % 3);
                    if (g)
                        (*g)(i) = b(i) * ((int)(mon::Hash().add((uint64_t)std::llround(std::min(std::max(x(i), -1e9), 1e9) * 64)).h % 3) - 1);
                    break;
                }
            }
            return v;
        }
        double value(const VectorXd& x) const { return off + scale * raw(x, nullptr); }
        limbo::opt::eval_t operator()(const VectorXd& x, bool grad) const
        {
            Call l;
            l.x = x;
            l.grad = grad;
            l.v = value(x);
            limbo::opt::eval_t res{l.v, boost::optional<VectorXd>{}};
            if (grad) {
                raw(x, &l.g);
                l.g *= scale;
                res = limbo::opt::eval_t{l.v, l.g};
            }
            log().push_back(l);
            return res;
        }
        std::string describe() const { return mon::str("k", kind, "(a=", mon::vec(a), " b=", mon::vec(b), " w=", mon::vec(w), " off=", off, " s=", scale, ")"); }
    };
} // namespace of
#endif
