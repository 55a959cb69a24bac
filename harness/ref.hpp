// Independent reference for everything a limbo GP computes: textbook formulas
// in long double, batch only, no shared code with limbo (not even Eigen).
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <cassert>
#include <cmath>
#include <string>
#include <vector>

namespace ref {
    typedef long double T;
    typedef std::vector<T> V;
    typedef std::vector<V> M;

    enum Kind { EXP, M32, M52, SE, LIN };
    enum Mean { DATA, CONST, NUL, USER, ARD_DATA, ARD_CONST, ARD_USER, ARD_NUL };
    inline const char* kname(int k)
    {
        static const char* n[] = {"Exp", "Matern32", "Matern52", "SquaredExpARD", "UserLinear"};
        return n[k];
    }
    inline const char* mname(int k)
    {
        static const char* n[] = {"Data", "Constant", "Null", "User", "ARD<Data>", "ARD<Constant>", "ARD<User>", "ARD<Null>"};
        return n[k];
    }

    template <typename E>
    V tov(const E& e)
    {
        V v(e.size());
        for (size_t i = 0; i < v.size(); i++)
            v[i] = e(i);
        return v;
    }
    inline T dot(const V& a, const V& b)
    {
        T s = 0;
        for (size_t i = 0; i < a.size(); i++)
            s += a[i] * b[i];
        return s;
    }

    // number of kernel parameters (without the noise)
    inline int nkp(int kind, int dim, int k)
    {
        if (kind == SE)
            return dim + dim * k + 1;
        return 2;
    }

    // p: log-space parameters (documented layout)
    inline T kern(int kind, const V& p, int k, const V& a, const V& b)
    {
        int d = a.size();
        if (kind == LIN) // user-defined, non-stationary: exp(2 p1) * (1 + a.b / exp(2 p0))
            return std::exp(2 * p[1]) * (1 + dot(a, b) / std::exp(2 * p[0]));
        if (kind == SE) {
            T z = 0;
            for (int i = 0; i < d; i++) {
                T u = (a[i] - b[i]) / std::exp(p[i]);
                z += u * u;
            }
            // Lambda is D x k, stored column by column after the length scales
            for (int j = 0; j < k; j++) {
                T s = 0;
                for (int i = 0; i < d; i++)
                    s += (a[i] - b[i]) * p[(j + 1) * d + i];
                z += s * s;
            }
            return std::exp(2 * p[d + d * k]) * std::exp(-z / 2);
        }
        T l = std::exp(p[0]), s2 = std::exp(2 * p[1]), r2 = 0;
        for (int i = 0; i < d; i++)
            r2 += (a[i] - b[i]) * (a[i] - b[i]);
        T r = std::sqrt(r2);
        if (kind == EXP)
            return s2 * std::exp(-r2 / (2 * l * l));
        if (kind == M32) {
            T t = std::sqrt((T)3) * r / l;
            return s2 * (1 + t) * std::exp(-t);
        }
        T t = std::sqrt((T)5) * r / l;
        return s2 * (1 + t + t * t / 3) * std::exp(-t);
    }

    // the user mean of the harness: depends on x and on two parameters
    inline V user_mean(const V& x, int dout, const V& p)
    {
        V m(dout);
        for (int o = 0; o < dout; o++) {
            T s = 0;
            for (size_t i = 0; i < x.size(); i++)
                s += std::sin((T)(1.7 + 0.6 * o) * x[i] + (T)(0.3 * i));
            m[o] = p[0] * s + p[1] * (o + 1);
        }
        return m;
    }
    inline int base_mean(int m) { return m == ARD_DATA ? DATA : m == ARD_CONST ? CONST : m == ARD_USER ? USER : m == ARD_NUL ? NUL : m; }
    inline bool is_ard(int m) { return m >= ARD_DATA; }
    inline int nbm(int m)
    {
        int b = base_mean(m);
        return b == CONST ? 1 : b == USER ? 2 : 0;
    }
    inline int nmp(int m, int dout) { return (is_ard(m) ? dout * (dout + 1) : 0) + nbm(m); }
    inline V mean_at(int m, const V& p, int dout, const V& mean_obs, const V& x)
    {
        int b = base_mean(m), off = is_ard(m) ? dout * (dout + 1) : 0;
        V bp(p.begin() + off, p.end());
        V r;
        if (b == DATA)
            r = mean_obs;
        else if (b == CONST)
            r = V(dout, bp[0]);
        else if (b == USER)
            r = user_mean(x, dout, bp);
        else
            r = V(dout, 0);
        if (!is_ard(m))
            return r;
        V q(dout, 0);
        // tr is dout x (dout+1), row by row in the parameter vector
        for (int i = 0; i < dout; i++) {
            for (int j = 0; j < dout; j++)
                q[i] += p[i * (dout + 1) + j] * r[j];
            q[i] += p[i * (dout + 1) + dout];
        }
        return q;
    }

    inline M chol(const M& a, bool& ok)
    {
        size_t n = a.size();
        M l(n, V(n, 0));
        ok = true;
        for (size_t j = 0; j < n; j++) {
            T s = a[j][j];
            for (size_t k = 0; k < j; k++)
                s -= l[j][k] * l[j][k];
            if (!(s > 0)) {
                ok = false;
                return l;
            }
            l[j][j] = std::sqrt(s);
            for (size_t i = j + 1; i < n; i++) {
                T t = a[i][j];
                for (size_t k = 0; k < j; k++)
                    t -= l[i][k] * l[j][k];
                l[i][j] = t / l[j][j];
            }
        }
        return l;
    }
    inline V fsolve(const M& l, V b)
    {
        for (size_t i = 0; i < b.size(); i++) {
            for (size_t k = 0; k < i; k++)
                b[i] -= l[i][k] * b[k];
            b[i] /= l[i][i];
        }
        return b;
    }
    inline V bsolve(const M& l, V b)
    {
        for (long i = (long)b.size() - 1; i >= 0; i--) {
            for (size_t k = i + 1; k < b.size(); k++)
                b[i] -= l[k][i] * b[k];
            b[i] /= l[i][i];
        }
        return b;
    }

    struct GP {
        int kind, mean, se_k, dim_in, dim_out;
        V kp; // kernel parameters, without noise
        T noise;
        V mp;
        std::vector<V> X, Y;
        // fitted
        bool ok;
        V mean_obs;
        M L, alpha /* per output */, R /* residual per output */;
        T cond, kmax;

        T k(const V& a, const V& b) const { return kern(kind, kp, se_k, a, b); }
        V m(const V& x) const { return mean_at(mean, mp, dim_out, mean_obs, x); }
        void fit()
        {
            size_t n = X.size();
            mean_obs = V(dim_out, 0);
            for (auto& y : Y)
                for (int o = 0; o < dim_out; o++)
                    mean_obs[o] += y[o] / n;
            M K(n, V(n));
            kmax = 0;
            T tr = 0;
            for (size_t i = 0; i < n; i++)
                for (size_t j = 0; j <= i; j++) {
                    K[i][j] = k(X[i], X[j]) + (i == j ? noise + 1e-8L : 0);
                    K[j][i] = K[i][j];
                    if (i == j) {
                        tr += K[i][i];
                        kmax = std::max(kmax, K[i][i]);
                    }
                }
            cond = n ? tr / (noise + 1e-8L) : 1;
            L = chol(K, ok);
            alpha.assign(dim_out, V(n));
            R.assign(dim_out, V(n));
            if (!ok)
                return;
            for (size_t i = 0; i < n; i++) {
                V mi = m(X[i]);
                for (int o = 0; o < dim_out; o++)
                    R[o][i] = Y[i][o] - mi[o];
            }
            for (int o = 0; o < dim_out; o++)
                alpha[o] = bsolve(L, fsolve(L, R[o]));
        }
        V mu(const V& v) const
        {
            V r = m(v);
            for (size_t i = 0; i < X.size(); i++) {
                T kk = k(X[i], v);
                for (int o = 0; o < dim_out; o++)
                    r[o] += kk * alpha[o][i];
            }
            return r;
        }
        // latent variance (without noise)
        T var(const V& v) const
        {
            if (X.empty())
                return k(v, v);
            V kk(X.size());
            for (size_t i = 0; i < X.size(); i++)
                kk[i] = k(X[i], v);
            V z = fsolve(L, kk);
            return k(v, v) - dot(z, z);
        }
        T logdet() const
        {
            T s = 0;
            for (size_t i = 0; i < X.size(); i++)
                s += std::log(L[i][i]);
            return 2 * s;
        }
        // the value limbo documents for one output; for several outputs the
        // data terms add up and the complexity term is counted once
        T loglik() const
        {
            T a = 0;
            for (int o = 0; o < dim_out; o++)
                a += dot(R[o], alpha[o]);
            return -a / 2 - logdet() / 2 - (T)X.size() / 2 * std::log(2 * 3.14159265358979323846264338327950288L);
        }
        T loo() const
        {
            size_t n = X.size();
            T s = 0;
            for (size_t i = 0; i < n; i++) {
                V e(n, 0);
                e[i] = 1;
                V c = bsolve(L, fsolve(L, e));
                T d = 1 / c[i]; // LOO variance
                for (int o = 0; o < dim_out; o++) {
                    T diff = alpha[o][i] * d; // y_i - mu_{-i}
                    s += -std::log(d) / 2 - diff * diff / (2 * d) - std::log(2 * 3.14159265358979323846264338327950288L) / 2;
                }
            }
            return s;
        }
        // brute force: really leaves each point out (with the mean vector fixed)
        T loo_brute() const
        {
            size_t n = X.size();
            T s = 0;
            for (size_t i = 0; i < n; i++) {
                GP g = *this;
                g.X.erase(g.X.begin() + i);
                g.Y.erase(g.Y.begin() + i);
                size_t q = n - 1;
                M K(q, V(q));
                for (size_t a = 0; a < q; a++)
                    for (size_t b = 0; b < q; b++)
                        K[a][b] = k(g.X[a], g.X[b]) + (a == b ? noise + 1e-8L : 0);
                bool okk;
                M l = chol(K, okk);
                V kk(q);
                for (size_t a = 0; a < q; a++)
                    kk[a] = k(g.X[a], X[i]);
                V z = fsolve(l, kk);
                T var = k(X[i], X[i]) + noise + 1e-8L - dot(z, z);
                V w = bsolve(l, z);
                for (int o = 0; o < dim_out; o++) {
                    T mu = 0;
                    for (size_t a = 0, b = 0; a < n; a++)
                        if (a != i)
                            mu += w[b++] * R[o][a];
                    T diff = R[o][i] - mu;
                    s += -std::log(var) / 2 - diff * diff / (2 * var) - std::log(2 * 3.14159265358979323846264338327950288L) / 2;
                }
            }
            return s;
        }
        T scale_y() const
        {
            T s = 1e-300L;
            for (auto& r : R)
                for (auto x : r)
                    s = std::max(s, std::fabs(x));
            return s;
        }
    };
    // central difference of f at p along coordinate i
    template <typename F>
    T fd(F f, V p, int i, T h = 1e-5L)
    {
        V a = p, b = p;
        a[i] += h;
        b[i] -= h;
        V c = p, d = p;
        c[i] += 2 * h;
        d[i] -= 2 * h;
        return (8 * (f(a) - f(b)) - (f(c) - f(d))) / (12 * h);
    }
} // namespace ref
#endif
