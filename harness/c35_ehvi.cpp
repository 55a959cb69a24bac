// C35: every EHVI scheme, and the volumes under it, against the definition.
#include <ehvi/ehvi_calculations.h>
#include <ehvi/ehvi_hvol.h>
#include <ehvi/ehvi_montecarlo.h>
#include <ehvi/ehvi_multi.h>
#include <ehvi/ehvi_sliceupdate.h>
#include "ehvikit.hpp"

static void two(long, mon::Rng& r)
{
    double ref[3] = {0, 0, 0}, scale = r.coin() ? 1 : r.logrange(1e-3, 1e3);
    if (r.coin(0.7))
        for (int k = 0; k < 2; k++)
            ref[k] = scale * r.range(-10, 10);
    std::string style;
    Pts p = front(r, r.coin(0.1) ? 0 : r.integer(1, r.coin(0.2) ? 60 : 12), 2, ref, scale, style);
    size_t distinct = p.size();
    if (p.size() && r.coin(0.3)) // a Pareto set may hold the same point twice
        for (int i = r.integer(1, 3); i > 0; i--) {
            individual q = p[r.integer(0, p.size() - 1)];
            p.push_back(q);
            mon::event("duplicated point, 2-D");
        }
    for (size_t i = p.size(); i > 1; i--)
        std::swap(p[i - 1], p[r.integer(0, i - 1)]);
    mon::Hash h;
    for (auto& q : p)
        h.addd(q.f[0]).addd(q.f[1]);
    mon::distinct(h.h);
    (void)distinct;
    for (int t = 0; t < 6; t++) {
        Cand c = candidate(r, p, 2, ref, scale);
        Pts before = p;
        Pop pop = ptrs(p), pop0 = pop;
        double got = ehvi2d(pop, ref, c.mu, c.s);
        std::string w = mon::str("[", p.size(), " points ", style, show(p, 2), " ref ", ref[0], ",", ref[1], " mu ", c.mu[0], ",", c.mu[1], " s ", c.s[0], ",", c.s[1], "]");
        judge("ehvi2d", got, ehvi(p, 2, ref, c.mu, c.s), tolerance(p, 2, ref, c), w);
        bool same = pop == pop0;
        for (size_t i = 0; i < p.size(); i++)
            same = same && !std::memcmp(&p[i], &before[i], sizeof(individual));
        mon::check(same, "ehvi-input", "the population was changed " + w);
    }
    if (p.size() == distinct) {
        Pop pop = ptrs(p);
        double inf[3] = {INFINITY, INFINITY, INFINITY};
        std::vector<std::pair<double, double>> v;
        double t = 1;
        for (int k = 0; k < 2; k++) {
            double range = 0;
            for (auto& q : p)
                range = std::max(range, q.f[k] - ref[k]);
            t *= range + 1e-9 * std::fabs(ref[k]);
        }
        for (auto& q : p)
            v.push_back({q.f[0], q.f[1]});
        judge("calculateS", calculateS(pop, ref), area(v, ref[0], ref[1], inf[0], inf[1]), 1e-9 * t, "[" + style + show(p, 2) + "]");
    }
}
static void three(long c0, mon::Rng& r)
{
    double ref[3] = {0, 0, 0}, scale = r.coin() ? 1 : r.logrange(1e-2, 1e2);
    if (r.coin(0.7))
        for (int k = 0; k < 3; k++)
            ref[k] = scale * r.range(-5, 5);
    std::string style;
    Pts p = front(r, r.coin(0.1) ? 0 : r.integer(1, r.coin(0.1) ? 20 : 8), 3, ref, scale, style);
    mon::Hash h;
    for (auto& q : p)
        h.addd(q.f[0]).addd(q.f[1]).addd(q.f[2]);
    mon::distinct(h.h);
    Pop pop = ptrs(p), pop0 = pop;
    Pts before = p;
    std::vector<Cand> cs;
    for (int t = r.integer(1, 4); t > 0; t--)
        cs.push_back(candidate(r, p, 3, ref, scale));
    std::vector<mus> ms(cs.size());
    std::vector<mus*> pdf;
    for (size_t i = 0; i < cs.size(); i++) {
        std::memcpy(ms[i].mu, cs[i].mu, sizeof ms[i].mu);
        std::memcpy(ms[i].s, cs[i].s, sizeof ms[i].s);
        pdf.push_back(&ms[i]);
    }
    if (r.coin(0.05))
        pdf.clear();
    std::vector<double> m5 = ehvi3d_5term(pop, ref, pdf), ms_ = ehvi3d_sliceupdate(pop, ref, pdf);
    mon::check(m5.size() == pdf.size() && ms_.size() == pdf.size(), "ehvi-multi-size", mon::str("the schemes for several candidates return ", m5.size(), " and ", ms_.size(), " values for ", pdf.size()));
    for (size_t i = 0; i < cs.size(); i++) {
        Cand& c = cs[i];
        ld want = ehvi(p, 3, ref, c.mu, c.s);
        double tol = tolerance(p, 3, ref, c);
        std::string w = mon::str("[", p.size(), " points ", style, show(p, 3), " ref ", ref[0], ",", ref[1], ",", ref[2], " mu ", c.mu[0], ",", c.mu[1], ",", c.mu[2], " s ", c.s[0], ",", c.s[1], ",", c.s[2], "]");
        judge("2term", ehvi3d_2term(pop, ref, c.mu, c.s), want, tol, w);
        judge("5term", ehvi3d_5term(pop, ref, c.mu, c.s), want, tol, w);
        judge("8term", ehvi3d_8term(pop, ref, c.mu, c.s), want, tol, w);
        judge("sliceupdate", ehvi3d_sliceupdate(pop, ref, c.mu, c.s), want, tol, w);
        if (i < m5.size() && i < ms_.size() && i < pdf.size()) {
            judge("5term, several", m5[i], want, tol, w);
            judge("sliceupdate, several", ms_[i], want, tol, w);
        }
    }
    bool same = pop == pop0;
    for (size_t i = 0; i < p.size(); i++)
        same = same && !std::memcmp(&p[i], &before[i], sizeof(individual));
    mon::check(same, "ehvi-input", "the population was changed [" + style + show(before, 3) + "]");
    if (c0 % 50 == 0) {
        // a generous band of the sampling error, estimated from the same distribution
        Cand& c = cs[0];
        ld s1 = 0, s2 = 0;
        const int N = 20000;
        for (int t = 0; t < N; t++) {
            double y[3];
            ld v = 1;
            for (int k = 0; k < 3; k++) {
                y[k] = c.mu[k] + c.s[k] * r.gauss();
                v *= std::max(0., y[k] - ref[k]);
            }
            if (v > 0)
                v -= volume(p, ref, y);
            s1 += v;
            s2 += v * v;
        }
        ld want = ehvi(p, 3, ref, c.mu, c.s), var = s2 / N - (s1 / N) * (s1 / N);
        // rare improvements: the estimate of the variance is not trusted below a few hits
        if (s1 > 0 && (s1 * s1) / s2 > 300)
            judge("Monte Carlo", ehvi3d_montecarlo(pop, ref, c.mu, c.s), want, 9 * sqrtl(var / MONTECARLOS) + 1e-9 * (double)want, mon::str("[", p.size(), " points ", style, show(p, 3), "]"));
    }
}
static void volumes(long, mon::Rng& r)
{
    double ref[3] = {0, 0, 0}, scale = r.coin() ? 1 : r.logrange(1e-3, 1e3);
    if (r.coin())
        for (int k = 0; k < 3; k++)
            ref[k] = scale * r.range(-5, 5);
    std::string style;
    // points of any kind: the volumes do not need a front
    Pts p;
    int n = r.coin(0.05) ? 0 : r.integer(1, r.coin(0.4) ? 150 : 12);
    if (r.coin())
        p = front(r, std::min(n, 60), 3, ref, scale, style);
    else {
        int st = r.integer(0, 3);
        style = st == 0 ? "random" : st == 1 ? "integers" : st == 2 ? "rising" : "falling";
        for (int i = 0; i < n; i++) {
            individual q;
            for (int k = 0; k < 3; k++)
                q.f[k] = ref[k] + scale * (st == 1 ? r.integer(1, 9) : st == 0 ? 0.01 + r.unit() : k == 0 ? i + 1 : k == 1 ? n - i : st == 2 ? i + 1 : n - i);
            if (st >= 2 && r.coin(0.3))
                q.f[2] = ref[2] + scale * r.integer(1, n);
            p.push_back(q);
        }
    }
    Pop pop = ptrs(p);
    mon::Hash h;
    double hi[3];
    for (int k = 0; k < 3; k++) {
        double range = scale;
        for (auto& q : p) {
            range = std::max(range, q.f[k] - ref[k]);
            h.addd(q.f[k]);
        }
        hi[k] = ref[k] + range;
    }
    mon::distinct(h.h);
    for (int t = 0; t < 8; t++) {
        double lo[3], up[3], vol = 1;
        int kind = r.integer(0, 3);
        for (int k = 0; k < 3; k++) {
            up[k] = kind == 0 ? hi[k] + 1 : ref[k] + (hi[k] - ref[k]) * r.range(-0.05, 1.2);
            lo[k] = ref[k];
            if (kind >= 2 && p.size()) // corners on coordinates of the points, as the schemes use them
                lo[k] = r.coin(0.3) ? ref[k] : p[r.integer(0, p.size() - 1)].f[k];
            if (kind == 3 && p.size())
                up[k] = p[r.integer(0, p.size() - 1)].f[k];
            vol *= hi[k] - ref[k] + 1e-6 * std::fabs(ref[k]);
        }
        std::string w = mon::str("[", p.size(), " points ", style, show(p, 3), " lo ", lo[0], ",", lo[1], ",", lo[2], " hi ", up[0], ",", up[1], ",", up[2], "]");
        std::sort(pop.begin(), pop.end(), zcomparator);
        bool empty = false;
        for (int k = 0; k < 3; k++)
            empty = empty || lo[k] >= up[k];
        double got = hvol3d(pop, lo, up);
        judge("hvol3d", got, empty ? 0.L : volume(p, lo, up), 1e-9 * vol, w);
        if (got > 0 && p.size() > 20)
            mon::event("volume of many points");
        for (int d = 0; d < 3; d++) {
            int x = d == 0 ? 1 : 0, y = d == 2 ? 1 : 2;
            std::sort(pop.begin(), pop.end(), d == 0 ? xcomparator : d == 1 ? ycomparator : zcomparator);
            std::vector<std::pair<double, double>> v;
            for (auto& q : p)
                if (q.f[d] > up[d])
                    v.push_back({q.f[x], q.f[y]});
            ld want = up[x] <= lo[x] || up[y] <= lo[y] ? 0.L : area(v, lo[x], lo[y], up[x], up[y]);
            judge("calculateslice", calculateslice(pop, lo, up, d), want, 1e-9 * (hi[x] - ref[x] + 1e-6 * std::fabs(ref[x])) * (hi[y] - ref[y] + 1e-6 * std::fabs(ref[y])), w);
        }
    }
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([&](long c, mon::Rng& r) {
        switch (c % 3) {
        case 0: two(c, r); break;
        case 1: three(c / 3, r); break;
        default: volumes(c, r);
        }
    });
    return mon::finish();
}
