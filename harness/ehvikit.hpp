// What an expected hypervolume improvement is, independently of src/ehvi; fronts and predictions to ask it for.
// (ehvi_multi.h cannot be included twice: the includes are left to the driver)
#pragma once
#include "mon.hpp"
#include <deque>
typedef long double ld;
typedef std::deque<individual*> Pop;
typedef std::vector<individual> Pts;

// E[(Y-a)^+] of a Gaussian
static ld G(ld a, ld mu, ld s)
{
    if (std::isinf(a))
        return 0;
    ld t = (a - mu) / s;
    return s * (expl(-t * t / 2) / sqrtl(2 * acosl(-1.L)) - t * 0.5L * erfcl(t / sqrtl(2.L)));
}
// definition: the sum over the grid cells no point dominates
static ld ehvi(const Pts& p, int d, const double* r, const double* mu, const double* s)
{
    std::vector<std::vector<double>> c(d);
    for (int k = 0; k < d; k++) {
        c[k].push_back(r[k]);
        for (auto& q : p)
            c[k].push_back(q.f[k]);
        std::sort(c[k].begin(), c[k].end());
        c[k].erase(std::unique(c[k].begin(), c[k].end()), c[k].end());
        c[k].push_back(INFINITY);
    }
    std::vector<std::vector<ld>> g(d);
    for (int k = 0; k < d; k++)
        for (double a : c[k])
            g[k].push_back(G(a, mu[k], s[k]));
    ld sum = 0;
    size_t nz = d == 3 ? c[2].size() - 1 : 1;
    for (size_t x = 0; x + 1 < c[0].size(); x++)
        for (size_t y = 0; y + 1 < c[1].size(); y++)
            for (size_t z = 0; z < nz; z++) {
                bool dom = false;
                for (auto& q : p)
                    dom = dom || (q.f[0] >= c[0][x + 1] && q.f[1] >= c[1][y + 1] && (d == 2 || q.f[2] >= c[2][z + 1]));
                if (!dom)
                    sum += (g[0][x] - g[0][x + 1]) * (g[1][y] - g[1][y + 1]) * (d == 3 ? g[2][z] - g[2][z + 1] : 1);
            }
    return sum;
}
// area of the union of [lo, min(hi, q)] in coordinates a, b
static ld area(const std::vector<std::pair<double, double>>& q, double la, double lb, double ha, double hb)
{
    std::vector<std::pair<double, double>> v;
    for (auto& e : q) {
        double x = std::min(e.first, ha), y = std::min(e.second, hb);
        if (x > la && y > lb)
            v.push_back({x, y});
    }
    std::sort(v.begin(), v.end(), [](const std::pair<double, double>& a, const std::pair<double, double>& b) { return a.first > b.first; });
    ld s = 0, y = lb;
    for (auto& e : v)
        if (e.second > y) {
            s += ((ld)e.first - la) * (e.second - y);
            y = e.second;
        }
    return s;
}
static ld volume(const Pts& p, const double* lo, const double* hi)
{
    std::vector<double> z{lo[2]};
    for (auto& q : p)
        if (q.f[2] > lo[2])
            z.push_back(std::min(q.f[2], hi[2]));
    std::sort(z.begin(), z.end());
    ld s = 0;
    for (size_t i = 0; i + 1 < z.size(); i++) {
        if (z[i + 1] <= z[i])
            continue;
        std::vector<std::pair<double, double>> v;
        for (auto& q : p)
            if (q.f[2] >= z[i + 1])
                v.push_back({q.f[0], q.f[1]});
        s += ((ld)z[i + 1] - z[i]) * area(v, lo[0], lo[1], hi[0], hi[1]);
    }
    return s;
}
static bool dominates(const individual& a, const individual& b, int d)
{
    for (int k = 0; k < d; k++)
        if (a.f[k] < b.f[k])
            return false;
    return true;
}
static Pts front(mon::Rng& r, int n, int d, const double* ref, double scale, std::string& style)
{
    int st = r.integer(0, 5);
    static const char* nm[] = {"sphere", "plane", "integers", "few levels", "chain of two objectives", "clustered"};
    style = nm[st];
    Pts p;
    for (int t = 0; t < 40 * n && (int)p.size() < n; t++) {
        individual q;
        q.f[2] = 0;
        double g[3], m = 0;
        for (int k = 0; k < d; k++) {
            g[k] = std::fabs(r.gauss()) + 1e-3;
            m += g[k] * g[k];
        }
        for (int k = 0; k < d; k++)
            switch (st) {
            case 0: q.f[k] = ref[k] + scale * g[k] / std::sqrt(m); break;
            case 1: q.f[k] = ref[k] + scale * (0.01 + r.unit()); break;
            case 2: q.f[k] = ref[k] + scale * r.integer(1, 9); break;
            case 3: q.f[k] = ref[k] + scale * r.integer(1, 3); break;
            case 4: q.f[k] = ref[k] + scale * (k == 0 ? t + 1 : k == 1 ? 40 * n - t : r.integer(1, 4)); break;
            default: q.f[k] = ref[k] + scale * (1 + 1e-3 * g[k] / std::sqrt(m));
            }
        bool bad = false;
        for (auto& o : p)
            bad = bad || dominates(o, q, d);
        if (bad)
            continue;
        p.erase(std::remove_if(p.begin(), p.end(), [&](const individual& o) { return dominates(q, o, d); }), p.end());
        p.push_back(q);
    }
    for (size_t i = p.size(); i > 1; i--)
        std::swap(p[i - 1], p[r.integer(0, i - 1)]);
    return p;
}
static Pop ptrs(Pts& p)
{
    Pop o;
    for (auto& q : p)
        o.push_back(&q);
    return o;
}
static void judge(const char* what, double got, ld want, double tol, const std::string& w)
{
    mon::evaluation();
    mon::event(what);
    static int shown = 0;
    if (want > 100 * tol && shown++ % 997 == 0)
        mon::sample(mon::str(what, " ", w));
    if (want > 100 * tol)
        mon::event("significant value");
    if (!(std::fabs((double)(got - want)) <= tol))
        mon::violation(std::string("ehvi-") + what, mon::str(what, " gives ", got, " instead of ", (double)want, " (tolerance ", tol, ") ", w));
}
static std::string show(const Pts& p, int d)
{
    std::ostringstream o;
    o.precision(17);
    for (size_t i = 0; i < p.size() && i < 8; i++) {
        o << " (";
        for (int k = 0; k < d; k++)
            o << (k ? "," : "") << p[i].f[k];
        o << ")";
    }
    return o.str();
}
struct Cand {
    double mu[3], s[3];
};
static Cand candidate(mon::Rng& r, const Pts& p, int d, const double* ref, double scale)
{
    Cand c;
    int st = r.integer(0, 4);
    for (int k = 0; k < 3; k++) {
        c.mu[k] = 0;
        c.s[k] = 0;
    }
    const individual* base = p.empty() ? nullptr : &p[r.integer(0, p.size() - 1)];
    for (int k = 0; k < d; k++) {
        double range = scale;
        for (auto& q : p)
            range = std::max(range, q.f[k] - ref[k]);
        switch (st) {
        case 0: c.mu[k] = ref[k] + range * r.unit(); break;
        case 1: c.mu[k] = base ? base->f[k] : ref[k]; break;
        case 2: c.mu[k] = ref[k] + range * r.range(0.8, 2); break;
        case 3: c.mu[k] = ref[k] - range * r.range(0, 1); break;
        default: c.mu[k] = base ? base->f[k] + range * 0.1 * r.gauss() : ref[k] + scale * r.gauss();
        }
        c.s[k] = range * r.logrange(r.coin(0.2) ? 1e-4 : 0.03, 3);
    }
    return c;
}
// the published constants carry twelve digits; errors add up over the cells
static double tolerance(const Pts& p, int d, const double* ref, const Cand& c)
{
    double t = 1;
    for (int k = 0; k < d; k++) {
        double range = 0;
        for (auto& q : p)
            range = std::max(range, q.f[k] - ref[k]);
        t *= range + std::fabs(c.mu[k] - ref[k]) + c.s[k];
    }
    return t * 2e-9 + 1e-300;
}

