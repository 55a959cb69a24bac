// C10: SparsifiedGP
#include "gpkit.hpp"
#include <limbo/model/sparsified_gp.hpp>
using namespace kit;

struct Pt {
    VectorXd x, y;
};

// can `all` shrink to exactly the points flagged in keep, always removing a densest one?
struct Greedy {
    const std::vector<Pt>& p;
    const std::vector<char>& keep;
    size_t budget;
    long nodes = 0;
    std::set<std::vector<char>> dead;
    std::string why;
    MatrixXd D;
    Greedy(const std::vector<Pt>& p_, const std::vector<char>& k, size_t b) : p(p_), keep(k), budget(b), D(p_.size(), p_.size())
    {
        for (size_t i = 0; i < p.size(); i++)
            for (size_t j = 0; j < p.size(); j++)
                D(i, j) = (p[i].x - p[j].x).norm();
    }
    bool ok(std::vector<char> alive)
    {
        std::vector<int> idx;
        for (size_t i = 0; i < alive.size(); i++)
            if (alive[i])
                idx.push_back(i);
        if (idx.size() <= budget)
            return true;
        if (++nodes > 4000)
            return true; // too many ties to decide
        if (dead.count(alive))
            return false;
        size_t k = std::min((size_t)p[0].x.size(), idx.size() - 1);
        std::vector<double> dens(idx.size());
        double mn = 1e300;
        for (size_t a = 0; a < idx.size(); a++) {
            std::vector<double> ds;
            for (size_t b = 0; b < idx.size(); b++)
                if (a != b)
                    ds.push_back(D(idx[a], idx[b]));
            std::sort(ds.begin(), ds.end());
            double s = 0;
            for (size_t j = 0; j < k; j++)
                s += ds[j];
            dens[a] = s;
            mn = std::min(mn, s);
        }
        bool any = false;
        for (size_t a = 0; a < idx.size(); a++)
            if (dens[a] <= mn + 1e-9 * (mn + 1e-3) && !keep[idx[a]]) {
                any = true;
                auto n = alive;
                n[idx[a]] = 0;
                if (ok(n))
                    return true;
            }
        if (!any && why.empty()) {
            size_t a = std::min_element(dens.begin(), dens.end()) - dens.begin();
            why = mon::str("with ", idx.size(), " points left the densest is ", mon::vec(p[idx[a]].x), " (summed distance ", mn, ") but it was kept");
        }
        dead.insert(alive);
        return false;
    }
};

template <typename K, typename Mn>
void one(mon::Rng& r)
{
    typedef limbo::model::SparsifiedGP<Params, K, Mn> S;
    typedef limbo::model::GP<Params, K, Mn> G;
    random_cfg(r, KindOf<K>::v);
    cfg().noise = r.logrange(1e-3, 0.5);
    int d = r.integer(1, 6), o = r.integer(1, 3);
    cfg().max_points = r.integer(1, 12);
    size_t budget = cfg().max_points;
    S gp(d, o);
    if (r.coin())
        gp.kernel_function().set_h_params(random_hp(r, KindOf<K>::v, d));
    std::vector<Pt> cur;
    std::string hist = mon::str("budget ", budget, " in=", d, " ");
    auto fresh = [&](int n) {
        std::vector<Pt> v;
        for (auto& x : random_points(r, n, d))
            v.push_back({x, random_obs(r, o, 1, 0)});
        return v;
    };
    int steps = r.integer(2, mon::S().thorough ? 40 : 18);
    for (int s = 0; s < steps; s++) {
        std::vector<Pt> given;
        if (cur.empty() || r.coin(0.2)) {
            given = fresh(r.coin() ? r.integer(1, (int)budget) : r.integer(1, (int)budget + 8));
            Vs x, y;
            for (auto& p : given) {
                x.push_back(p.x);
                y.push_back(p.y);
            }
            gp.compute(x, y);
            hist += mon::str("compute(", given.size(), ") ");
            mon::event("op:compute");
        }
        else {
            Pt p = fresh(1)[0];
            if (r.coin(0.3))
                p.x = cur[r.integer(0, (int)cur.size() - 1)].x + (r.coin() ? 0. : 0.01) * VectorXd::Random(d).cwiseAbs();
            given = cur;
            given.push_back(p);
            gp.add_sample(p.x, p.y);
            hist += "add ";
            mon::event("op:add");
        }
        mon::evaluation();
        auto nv = mon::S().nviol;
        std::string what = hist;
        if (what.size() > 500)
            what = "..." + what.substr(what.size() - 490);
        auto xs = gp.samples();
        auto ys = gp.observations();
        size_t want = std::min(given.size(), budget);
        if (!mon::check(xs.size() == want && ys.size() == want && gp.nb_samples() == (int)want, "sparse:budget", mon::str(what, ": ", xs.size(), " samples and ", ys.size(), " observations kept of ", given.size())))
            return;
        // pairing and order: match the kept pairs as a sub-sequence
        std::vector<char> keep(given.size(), 0);
        size_t g = 0;
        std::vector<Pt> now;
        for (size_t i = 0; i < xs.size(); i++) {
            while (g < given.size() && !(given[g].x == xs[i] && given[g].y == ys[i]))
                g++;
            if (g == given.size())
                break;
            keep[g] = 1;
            now.push_back(given[g]);
            g++;
        }
        if (now.size() != xs.size()) {
            bool paired = true;
            for (size_t i = 0; i < xs.size(); i++) {
                bool f = false;
                for (auto& p : given)
                    f = f || (p.x == xs[i] && p.y == ys[i]);
                paired = paired && f;
            }
            mon::violation(paired ? "sparse:order" : "sparse:pairing", mon::str(what, ": what the model holds is not a sub-sequence of the (sample, observation) pairs it was given"));
            return;
        }
        if (given.size() > budget) {
            mon::event("sparsifications");
            mon::event("removals", given.size() - budget);
            Greedy gr(given, keep, budget);
            bool ok = gr.ok(std::vector<char>(given.size(), 1));
            mon::check(ok, "sparse:not-densest", what + ": " + gr.why);
        }
        else
            mon::event("within_budget");
        cur = now;
        mon::distinct(mon::Hash().add(budget).add(d).add(s).addv(given.back().x).addv(given.back().y).h);
        // a plain GP of the kept samples
        G ref(d, o);
        ref.kernel_function() = gp.kernel_function();
        ref.mean_function() = gp.mean_function();
        ref.compute(xs, ys);
        for (int q = 0; q < 3; q++) {
            VectorXd v = random_query(r, xs, d);
            VectorXd m0 = ref.mu(v), m1 = gp.mu(v);
            double s0 = ref.sigma(v), s1 = gp.sigma(v);
            double sc = 1 + m0.cwiseAbs().maxCoeff() + ref.alpha().cwiseAbs().maxCoeff() * 1e-2;
            mon::check((m0 - m1).cwiseAbs().maxCoeff() < 1e-7 * sc && std::fabs(s0 - s1) < 1e-8 * (1 + s0), "sparse:prediction", mon::str(what, ": mu ", mon::vec(m1), " sigma ", s1, " but a GP of the kept samples gives ", mon::vec(m0), " ", s0, " at ", mon::vec(v)));
        }
        VectorXd mo = VectorXd::Zero(o);
        for (auto& y : ys)
            mo += y / ys.size();
        mon::check((gp.mean_observation() - mo).cwiseAbs().maxCoeff() < 1e-10, "sparse:mean-observation", what + ": mean_observation is not the mean of the kept observations");
        if (nv != mon::S().nviol)
            return;
    }
    mon::sample(hist.substr(0, 300));
}
int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    mon::run_cases([](long c, mon::Rng& r) {
        c % 2 ? one<M52, Data>(r) : one<Exp, User>(r);
    });
    return mon::finish();
}
