// C38: the EHVI command-line program, as the README describes it, run in this process.
#include <fstream>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <unistd.h>
#define main ehvi_program
#include <ehvi/main.cc>
#undef main
#include "ehvikit.hpp"

// the program leaves its input to the end of the process
extern "C" int __lsan_is_turned_off() { return 1; }

struct Redirect {
    std::ostringstream out, err;
    std::istringstream in;
    std::streambuf *o, *e, *i;
    std::streamsize p;
    Redirect(const std::string& input) : in(input)
    {
        o = std::cout.rdbuf(out.rdbuf());
        e = std::cerr.rdbuf(err.rdbuf());
        i = std::cin.rdbuf(in.rdbuf());
        p = std::cout.precision();
        std::cin.clear();
    }
    ~Redirect()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
        std::cin.rdbuf(i);
        std::cout.precision(p);
    }
};
static std::string space(mon::Rng& r)
{
    static const char* s[] = {" ", "\n", "  ", "\t", "\r\n", " \n\n "};
    return r.coin(0.7) ? " " : s[r.integer(0, 5)];
}
static std::vector<std::string> answers(const std::string& out)
{
    std::vector<std::string> a;
    std::istringstream s(out);
    std::string l;
    while (std::getline(s, l)) {
        if (l.compare(0, 4, "===>") == 0) // the two-dimensional value the default mode adds
            continue;
        if (l.size())
            a.push_back(l);
    }
    return a;
}
struct Expect {
    const char* what;
    int cand;
    bool sampled;
};
static void compare(const std::vector<std::string>& got, const std::vector<Expect>& want, const Pts& p, const double* ref, const std::vector<Cand>& cs, mon::Rng& r, const std::string& w)
{
    if (!mon::check(got.size() == want.size(), "cli-lines", mon::str(got.size(), " answers instead of ", want.size(), " ", w)))
        return;
    for (size_t i = 0; i < got.size(); i++) {
        char* end = nullptr;
        double v = std::strtod(got[i].c_str(), &end);
        if (!mon::check(end && *end == 0, "cli-number", "an answer is not a number: " + got[i] + " " + w))
            continue;
        const Cand& c = cs[want[i].cand];
        ld e = ehvi(p, 3, ref, c.mu, c.s);
        double tol = tolerance(p, 3, ref, c) + 1e-9 * std::fabs((double)e);
        if (want[i].sampled) {
            ld s1 = 0, s2 = 0;
            const int N = 20000;
            for (int t = 0; t < N; t++) {
                double y[3];
                ld x = 1;
                for (int k = 0; k < 3; k++) {
                    y[k] = c.mu[k] + c.s[k] * r.gauss();
                    x *= std::max(0., y[k] - ref[k]);
                }
                if (x > 0)
                    x -= volume(p, ref, y);
                s1 += x;
                s2 += x * x;
            }
            if (!(s1 > 0 && (s1 * s1) / s2 > 300))
                continue;
            tol += 9 * sqrtl((s2 / N - (s1 / N) * (s1 / N)) / MONTECARLOS);
        }
        judge(want[i].what, v, e, tol, w);
    }
}
// the population, in a random order, with points that do not belong in it
static Pts spoiled(mon::Rng& r, const Pts& p, const double* ref)
{
    Pts q = p;
    if (p.size() && r.coin(0.6))
        for (int i = r.integer(1, 4); i > 0; i--) {
            individual d = p[r.integer(0, p.size() - 1)];
            if (r.coin(0.7))
                for (int k = 0; k < 3; k++)
                    if (r.coin())
                        d.f[k] = ref[k] + (d.f[k] - ref[k]) * r.range(0.2, 0.99);
            q.insert(q.begin() + r.integer(0, q.size()), d);
        }
    return q;
}
static void file(long, mon::Rng& r, const std::string& dir)
{
    double ref[3] = {0, 0, 0}, scale = r.coin() ? 1 : r.logrange(1e-2, 1e2);
    if (r.coin(0.7))
        for (int k = 0; k < 3; k++)
            ref[k] = scale * r.range(-5, 5);
    std::string style;
    Pts p = front(r, r.coin(0.1) ? 0 : r.integer(1, 8), 3, ref, scale, style), q = spoiled(r, p, ref);
    std::vector<Cand> cs;
    for (int t = r.coin(0.5) ? 1 : r.integer(2, 6); t > 0; t--)
        cs.push_back(candidate(r, p, 3, ref, scale));
    std::ostringstream f;
    f.precision(17);
    f << q.size();
    for (auto& e : q)
        for (int k = 0; k < 3; k++)
            f << space(r) << e.f[k];
    for (int k = 0; k < 3; k++)
        f << space(r) << ref[k];
    for (auto& c : cs) {
        for (int k = 0; k < 3; k++)
            f << space(r) << c.mu[k];
        for (int k = 0; k < 3; k++)
            f << space(r) << c.s[k];
    }
    if (r.coin(0.7))
        f << space(r);
    std::string path = dir + "/case.txt";
    {
        std::ofstream o(path);
        o << f.str();
    }
    static const char* names[] = {"2term", "5term", "8term", "sliceupdate", "montecarlo", "3term"};
    std::vector<std::string> args{"EHVI", path};
    std::vector<Expect> want;
    bool several = cs.size() > 1;
    std::string asked;
    int n = r.coin(0.25) ? 0 : r.integer(1, 4);
    for (int i = 0; i < n; i++) {
        int s = r.integer(0, r.coin(0.1) ? 5 : 3);
        args.push_back(names[s]);
        asked += std::string(" ") + names[s];
        if (several ? (s == 1 || s == 3) : s < 5)
            for (size_t c = 0; c < cs.size(); c++)
                want.push_back({s == 4 ? "Monte Carlo" : several ? "several candidates" : names[s], (int)c, s == 4});
        else
            mon::event("scheme that is not available");
    }
    if (n == 0)
        for (size_t c = 0; c < cs.size(); c++)
            want.push_back({several ? "default scheme, several" : "default scheme", (int)c, false});
    mon::Hash h;
    h.add(mon::hash_str(f.str() + asked));
    mon::distinct(h.h);
    if (q.size() > p.size())
        mon::event("file with dominated points");
    std::vector<char*> av;
    for (auto& a : args)
        av.push_back(&a[0]);
    std::string out, err;
    int rc;
    {
        Redirect io("");
        rc = ehvi_program(av.size(), av.data());
        out = io.out.str();
        err = io.err.str();
    }
    std::string w = "[" + asked + " file: " + f.str() + "]";
    mon::check(rc == 0, "cli-status", "the program fails " + w);
    compare(answers(out), want, p, ref, cs, r, w);
    unlink(path.c_str());
}
static void dialogue(long, mon::Rng& r)
{
    double ref[3] = {0, 0, 0}, scale = r.coin() ? 1 : r.logrange(1e-2, 1e2);
    std::string style;
    Pts p = front(r, r.integer(1, 5), 3, ref, scale, style), q(p.begin(), p.end() - 1);
    Cand c = candidate(r, p, 3, ref, scale);
    // the program asks for another point in the place of one it removes, until it has the number announced
    q = spoiled(r, q, ref);
    Pts kept;
    bool early = false;
    for (auto& e : q) {
        bool bad = false;
        for (auto& o : kept)
            bad = bad || dominates(o, e, 3);
        if (bad)
            continue;
        kept.erase(std::remove_if(kept.begin(), kept.end(), [&](const individual& o) { return dominates(e, o, 3); }), kept.end());
        kept.push_back(e);
        early = early || kept.size() >= p.size();
    }
    if (early)
        q.assign(p.begin(), p.end() - 1);
    q.push_back(p.back());
    std::ostringstream f;
    f.precision(17);
    f << p.size();
    for (auto& e : q)
        for (int k = 0; k < 3; k++)
            f << space(r) << e.f[k];
    for (int k = 0; k < 3; k++)
        f << space(r) << ref[k];
    for (int k = 0; k < 3; k++)
        f << space(r) << c.mu[k];
    for (int k = 0; k < 3; k++)
        f << space(r) << c.s[k];
    f << "\n";
    mon::Hash h;
    h.add(mon::hash_str(f.str()));
    mon::distinct(h.h);
    if (q.size() > p.size())
        mon::event("dialogue with dominated points");
    char name[] = "EHVI";
    char* av[] = {name, nullptr};
    std::string out;
    int rc;
    {
        Redirect io(f.str());
        rc = ehvi_program(1, av);
        out = io.out.str();
    }
    std::string w = "[input: " + f.str() + "]";
    mon::check(rc == 0, "cli-status", "the program fails " + w);
    compare(answers(out), {{"dialogue, Monte Carlo", 0, true}, {"dialogue", 0, false}, {"dialogue", 0, false}, {"dialogue", 0, false}, {"dialogue", 0, false}}, p, ref, {c}, r, w);
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    char dir[] = "/tmp/limbo-cli-XXXXXX";
    if (!mkdtemp(dir))
        return 2;
    mon::run_cases([&](long c, mon::Rng& r) {
        if (c % 8 == 7)
            dialogue(c, r);
        else
            file(c, r, dir);
    });
    rmdir(dir);
    return mon::finish();
}
