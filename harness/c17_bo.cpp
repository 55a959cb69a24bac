// C16 initial designs, C17 loop protocol, C18 faults, C19 best so far, C20 stopping criteria
#include "bofake.hpp"
using namespace fk;
using namespace limbo;
namespace bf = boost::fusion;

typedef bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<Acqui<>>, acquiopt<Opt>, initfun<Init>, statsfun<bf::vector<Stat<0>, Stat<1>, Stat<2>>>, stopcrit<bf::vector<Crit<0>, stop::MaxIterations<Params>, Crit<1>>>> BO;

std::string cfgs()
{
    Set& s = set();
    return mon::str("{in=", s.dim_in, " out=", s.dim_out, " it=", s.iterations, " hp=", s.hp_period, " bounded=", s.bounded, " init=", initpts().size(), "}");
}
void random_set(mon::Rng& r)
{
    set() = Set();
    set().dim_in = r.integer(1, 6);
    set().dim_out = r.integer(1, 4);
    set().bounded = r.coin(0.75);
    set().hp_period = r.pick(std::vector<int>{-1, 0, 1, 2, 3, 5, 7});
    initpts().clear();
    int n = r.coin(0.2) ? 0 : r.integer(1, 7);
    for (int i = 0; i < n; i++) {
        VectorXd p(set().dim_in);
        for (int j = 0; j < p.size(); j++)
            p(j) = r.unit();
        initpts().push_back(p);
    }
    Fun::salt() = r.u64();
    Fun::levels() = r.coin(0.4) ? r.integer(1, 2) : 0;
    Fun::calls() = 0;
    Fun::faults().clear();
    optrng() = mon::Rng(r.u64());
    for (auto& c : crit())
        c = nullptr;
    tr().clear();
    onuse() = nullptr;
}

// what the recorded history says the optimiser must contain
struct Truth {
    Vs X, Y; // all successful evaluations since the last reset
    int total = 0; // completed iterations since the last reset
    int cur = 0; // completed iterations of the last run
};
template <typename B>
bool compare(const B& bo, const Truth& t, const std::string& key, const std::string& w)
{
    bool ok = bo.samples().size() == t.X.size() && bo.observations().size() == t.Y.size();
    mon::check(ok, key + "-count", mon::str(bo.samples().size(), " samples and ", bo.observations().size(), " observations instead of ", t.X.size(), " ", w));
    if (ok)
        for (size_t i = 0; i < t.X.size(); i++)
            if (bo.samples()[i] != t.X[i] || bo.observations()[i] != t.Y[i]) {
                mon::violation(key + "-pair", mon::str("pair ", i, " ", w));
                return false;
            }
    return ok;
}
template <typename B>
void check_best(const B& bo, mon::Rng& r, const std::string& w)
{
    if (bo.observations().empty())
        return;
    Agg a;
    for (a.kind = 0; a.kind < 6; a.kind++) {
        double best = -1e300;
        for (auto& y : bo.observations())
            best = std::max(best, a(y));
        VectorXd by = bo.best_observation(a), bx = bo.best_sample(a);
        size_t nb = 0;
        bool pair = false, fromx = false;
        for (size_t i = 0; i < bo.observations().size(); i++)
            if (a(bo.observations()[i]) == best) {
                nb++;
                pair |= bo.observations()[i] == by && bo.samples()[i] == bx;
                fromx |= bo.samples()[i] == bx;
            }
        mon::check(a(by) == best, "best-observation", mon::str("aggregator ", a.kind, " value ", a(by), " best ", best, " ", w));
        mon::check(fromx, "best-sample", mon::str("aggregator ", a.kind, " sample ", mon::vec(bx), " ", w));
        mon::check(pair || !fromx || a(by) != best, "best-pair", mon::str("aggregator ", a.kind, " ", w));
        mon::event(nb > 1 ? "ties for the best" : "unique best");
        mon::evaluation();
    }
    // the default aggregator is the first output
    double b0 = -1e300;
    for (auto& y : bo.observations())
        b0 = std::max(b0, y(0));
    mon::check(bo.best_observation()(0) == b0, "best-default", w);
    mon::distinct(mon::Hash().addv(bo.best_observation()).addv(bo.best_sample()).add(bo.samples().size()).h);
}

// one call of optimize() in the trace tr()[from..]: check it against the protocol
// returns false when the trace ended with a failure
bool check_run(const BO& bo, Truth& t, size_t from, bool reset, bool threw, const std::string& w)
{
    auto& T = tr();
    size_t i = from;
    bool virgin = reset || t.total == 0;
    if (reset)
        t = Truth();
    t.cur = 0;
    auto at = [&](Kind k) { return i < T.size() && T[i].k == k; };
    auto bad = [&](const std::string& key, const std::string& m) {
        std::string ctx;
        for (size_t j = i > 6 ? i - 6 : 0; j < std::min(T.size(), i + 5); j++)
            ctx += std::string(j == i ? " >" : " ") + kname(T[j].k);
        mon::violation(key, mon::str(m, " at event ", i, ":", ctx, " ", w));
        return !threw;
    };
    // initialisation
    if (virgin) {
        if (!at(INIT))
            return bad("init-missing", "no initialisation");
        i++;
        for (auto& p : initpts()) {
            if (at(FAIL)) {
                i++;
                if (!threw || i != T.size())
                    return bad("fault-swallowed", "a failed evaluation did not end the run");
                return false;
            }
            if (!at(EVAL) || T[i].x != p)
                return bad("init-eval", "initial point not evaluated");
            t.X.push_back(T[i].x);
            t.Y.push_back(T[i].y);
            i++;
        }
    }
    if (t.X.empty()) {
        if (!at(NEWMODEL))
            return bad("model-not-reset", "no data, but the model was not reset");
    }
    else if (!at(COMPUTE) || T[i].n != t.X.size())
        return bad("model-not-computed", "the model was not computed from the data");
    i++;
    std::vector<int> stops;
    int it = 0;
    for (;; it++) {
        // stopping criteria: until one holds
        bool stop = false;
        size_t asked = 0;
        while (at(STOP)) {
            stop |= T[i].flag;
            asked++;
            i++;
        }
        if (!stop && it >= set().iterations)
            stop = true;
        if (stop) {
            if (i != T.size())
                return bad("after-stop", "activity after a stopping criterion");
            break;
        }
        if (asked == 0)
            return bad("stop-not-asked", "an iteration without asking the stopping criteria");
        if (i == T.size())
            return bad("stopped-early", mon::str("the run ended after ", it, " iterations without a reason"));
        // acquisition
        if (!at(ACQUI))
            return bad("acqui-missing", "no acquisition function");
        if (T[i].id != it)
            return bad("acqui-iteration", mon::str("iteration ", T[i].id, " instead of ", it));
        if (T[i].n != t.X.size())
            return bad("model-stale", mon::str("acquisition on a model with ", T[i].n, " samples instead of ", t.X.size()));
        i++;
        while (at(AEVAL)) {
            if ((size_t)T[i].id != t.X.size())
                return bad("model-stale", "acquisition evaluated on another model");
            i++;
        }
        if (!at(OPT))
            return bad("opt-missing", "the acquisition function was not maximised");
        Ev o = T[i];
        if (o.flag != set().bounded)
            return bad("opt-bounded", "wrong bounds");
        if (o.x.size() != set().dim_in)
            return bad("opt-dim", "wrong dimension");
        if (set().bounded && ((o.x.array() < 0).any() || (o.x.array() > 1).any()))
            return bad("opt-start", "starting point out of the bounds");
        i++;
        if (at(FAIL)) {
            if (T[i].x != o.y)
                return bad("eval-point", "another point was evaluated");
            i++;
            if (!threw || i != T.size())
                return bad("fault-swallowed", "a failed evaluation did not end the run");
            return false;
        }
        if (!at(EVAL))
            return bad("eval-missing", "the point was not evaluated");
        if (T[i].x != o.y)
            return bad("eval-point", "another point was evaluated");
        VectorXd x = T[i].x, y = T[i].y;
        t.X.push_back(x);
        t.Y.push_back(y);
        i++;
        // statistics and model update
        int nstat[3] = {0, 0, 0}, nadd = 0;
        while (at(STAT) || at(ADD)) {
            const Ev& e = T[i];
            if (e.k == STAT) {
                nstat[e.id]++;
                if (e.n != t.X.size() || !e.flag || e.x != x || e.y != y)
                    return bad("stat-data", "the statistics do not see the new pair");
            }
            else {
                nadd++;
                if (e.x != x || e.y != y)
                    return bad("model-pair", "the model was given another pair");
                if (e.n != t.X.size())
                    return bad("model-count", "the model does not have all the data");
            }
            i++;
        }
        if (nadd != 1)
            return bad("model-updates", mon::str("the model was given ", nadd, " pairs"));
        for (int k = 0; k < 3; k++)
            if (nstat[k] != 1)
                return bad("stat-calls", mon::str("statistic ", k, " called ", nstat[k], " times"));
        bool due = set().hp_period > 0 && (it + 1) % set().hp_period == 0;
        size_t nhp = 0;
        while (at(HP)) {
            nhp++;
            i++;
        }
        if (nhp != (due ? 1 : 0))
            return bad("hp-period", mon::str("iteration ", it, ": hyper-parameters optimised ", nhp, " times"));
        if (due)
            mon::event("hyper-parameter optimisations");
        t.total++;
        t.cur++;
        mon::evaluation();
        mon::event("iterations checked");
    }
    if (threw)
        return bad("unexpected-exception", "");
    mon::check(bo.current_iteration() == it, "current-iteration", mon::str(bo.current_iteration(), " instead of ", it, " ", w));
    return true;
}
uint64_t trace_hash(size_t from)
{
    mon::Hash h;
    for (size_t i = from; i < tr().size(); i++)
        if (tr()[i].k != AEVAL)
            h.add(tr()[i].k * 8 + tr()[i].id * 2 + tr()[i].flag);
    h.add(set().dim_in * 16 + set().dim_out);
    return h.h;
}

void loop_case(mon::Rng& r, bool faults)
{
    random_set(r);
    BO bo;
    mon::check(bo.current_iteration() == 0 && bo.total_iterations() == 0 && bo.samples().empty(), "fresh", cfgs());
    Truth t;
    std::string w;
    onuse() = [&](const Model& m) {
        bool ok = m.X.size() == bo.samples().size();
        for (size_t i = 0; ok && i < m.X.size(); i++)
            ok = m.X[i] == bo.samples()[i] && m.Y[i] == bo.observations()[i];
        mon::check(ok, "model-data", mon::str("the model differs from the recorded data ", w));
    };
    int runs = r.integer(1, 5);
    for (int k = 0; k < runs; k++) {
        set().iterations = r.coin(0.1) ? 0 : r.integer(1, 12);
        set().hp_period = r.pick(std::vector<int>{-1, 0, 1, 2, 3, 5, 7});
        bool reset = k == 0 ? r.coin(0.8) : r.coin(0.35);
        // now and then a user criterion stops the run first
        int cut = r.integer(0, 12), who = r.integer(0, 1);
        for (auto& c : crit())
            c = nullptr;
        if (r.coin(0.4))
            crit()[who] = [cut](int cur, int, size_t) { return cur >= cut; };
        if (faults || r.coin(0.15)) {
            Fun::faults().clear();
            int nf = r.integer(0, 2);
            for (int j = 0; j < nf; j++)
                Fun::faults()[Fun::calls() + r.integer(0, set().iterations + (int)initpts().size())] = r.integer(1, 5);
        }
        w = mon::str("run ", k, " of ", runs, reset ? " reset " : " continue ", cfgs());
        size_t from = tr().size();
        int before_total = bo.total_iterations();
        bool threw = false;
        // re-running an initialisation on top of recorded data is what continuing
        // a run without any iteration does
        Agg a;
        a.kind = r.integer(0, 5);
        int failcall = -1, failkind = 0;
        // what the optimiser shows while the user's function runs
        size_t known = reset ? 0 : bo.samples().size(), seen = 0;
        size_t ninit = reset || bo.total_iterations() == 0 ? initpts().size() : 0;
        Fun::oncall() = [&]() {
            mon::check(bo.samples().size() == known + seen && bo.observations().size() == known + seen, "records-during", mon::str(bo.samples().size(), " samples and ", bo.observations().size(), " observations at an evaluation instead of ", known + seen, " ", w));
            if (seen < ninit)
                mon::check(bo.current_iteration() == 0 && (!reset || bo.total_iterations() == 0), "counters-during-init", mon::str(bo.current_iteration(), "/", bo.total_iterations(), " ", w));
            seen++;
        };
        try {
            bo.optimize(Fun(), a, reset);
        }
        catch (const UserError& e) {
            threw = true;
            failkind = 1;
            failcall = e.tag;
        }
        catch (const EvaluationError&) {
            threw = true;
            failkind = 2;
        }
        if (faults) {
            const Ev* f = nullptr;
            for (size_t i = from; i < tr().size(); i++)
                if (tr()[i].k == FAIL)
                    f = &tr()[i];
            mon::check((f != nullptr) == threw, "fault-surface", mon::str(f ? "a fault did not surface" : "an exception without fault", " ", w));
            if (f && threw) {
                mon::check((f->id == 1) == (failkind == 1), "fault-type", mon::str("fault ", f->id, " surfaced as another error ", w));
                mon::event(mon::str("fault of kind ", f->id, bo.total_iterations() == 0 ? " before the first iteration" : " in the iterations"));
            }
        }
        Fun::oncall() = nullptr;
        bool done = check_run(bo, t, from, reset, threw, w);
        compare(bo, t, threw ? "fault-records" : "records", w);
        mon::check(bo.total_iterations() == t.total, "total-iterations", mon::str(bo.total_iterations(), " instead of ", t.total, " ", w));
        if (threw)
            mon::check(bo.current_iteration() == t.cur, "current-iteration", mon::str(bo.current_iteration(), " instead of ", t.cur, " after a failure ", w));
        const Model& m = bo.model();
        if (!threw) {
            bool ok = m.X.size() == t.X.size();
            for (size_t i = 0; ok && i < m.X.size(); i++)
                ok = m.X[i] == t.X[i] && m.Y[i] == t.Y[i];
            mon::check(ok, "model-final", mon::str("the model has ", m.X.size(), " samples ", w));
        }
        else
            // the model never contains anything which is not recorded, except what a reset just dropped
            for (size_t i = 0; i < m.X.size(); i++)
                for (int j = 0; j < m.Y[i].size(); j++)
                    mon::check(std::isfinite(m.Y[i](j)), "fault-model", mon::str("a failed evaluation entered the model ", w));
        check_best(bo, r, w);
        mon::event(reset ? "runs with reset" : "continued runs");
        if (threw)
            mon::event("runs ended by a fault");
        else if (k && !reset)
            mon::event("continued after something");
        mon::distinct(trace_hash(from));
        if (mon::S().nviol)
            return; // the state is no longer the reference's
    }
    onuse() = nullptr;
    std::string s;
    for (size_t i = 0; i < tr().size() && i < 14; i++)
        if (tr()[i].k != AEVAL)
            s += std::string(" ") + kname(tr()[i].k);
    mon::sample(mon::str(runs, " runs, ", tr().size(), " events:", s, " ... ", w));
}

// direct use of add_new_sample
void direct_case(mon::Rng& r)
{
    random_set(r);
    BO bo;
    Truth t;
    int n = r.integer(1, 12);
    for (int k = 0; k < n; k++) {
        VectorXd x(set().dim_in), y(set().dim_out);
        for (int i = 0; i < x.size(); i++)
            x(i) = r.unit();
        y = Fun::value(x);
        int f = r.coin(0.6) ? 0 : r.integer(1, 3);
        if (f)
            y(r.integer(0, y.size() - 1)) = f == 1 ? NAN : f == 2 ? INFINITY : -INFINITY;
        bool threw = false;
        try {
            bo.add_new_sample(x, y);
        }
        catch (const EvaluationError&) {
            threw = true;
        }
        mon::check(threw == (f != 0), "add-rejects", mon::str("value ", mon::vec(y)));
        if (!f) {
            t.X.push_back(x);
            t.Y.push_back(y);
        }
        else
            mon::event("non-finite values rejected");
        compare(bo, t, "add", cfgs());
    }
    check_best(bo, r, "direct");
    // data added by hand are used by a run that continues
    set().iterations = r.integer(1, 4);
    size_t from = tr().size();
    bo.optimize(Fun(), Agg(), false);
    check_run(bo, t, from, false, false, "after add_new_sample " + cfgs());
    compare(bo, t, "add-continue", cfgs());
    mon::event("runs continued from data added by hand");
    mon::evaluation(n);
}

// ------------------------------------------------------------------ C20
struct MPOpt { // exact maximiser of the fake model's mean (x.sum() over the unit cube), or another point
    template <typename F>
    VectorXd operator()(const F& f, const VectorXd& init, bool bounded) const
    {
        mon::check(bounded, "mpv-bounded", "");
        mon::check(init.size() == set().dim_in, "mpv-dim", "");
        return VectorXd::Constant(init.size(), at());
    }
    static double& at()
    {
        static double a = 1;
        return a;
    }
};
template <typename Crits, typename AO = Opt>
void stop_run(mon::Rng& r, bool mpv, bool first, bool own, const std::string& name)
{
    typedef bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<Acqui<>>, acquiopt<AO>, initfun<Init>, statsfun<bf::vector<Stat<0>>>, stopcrit<Crits>> B;
    B bo;
    int runs = r.integer(1, 4);
    size_t nprev = 0;
    for (int k = 0; k < runs; k++) {
        set().iterations = r.coin(0.15) ? 0 : r.integer(1, 15);
        set().ratio = r.range(0.1, 1.2);
        MPOpt::at() = r.pick(std::vector<double>{1, 0.5, 0.25});
        bool reset = r.coin(0.4) || k == 0;
        Agg a;
        a.kind = r.integer(0, 5);
        size_t from = tr().size();
        int tot0 = reset ? 0 : bo.total_iterations();
        bo.optimize(Fun(), a, reset);
        // replay: at which iteration does the first criterion hold?
        std::vector<const Ev*> ev;
        for (size_t i = from; i < tr().size(); i++)
            if (tr()[i].k == EVAL)
                ev.push_back(&tr()[i]);
        int its = bo.current_iteration();
        size_t ninit = ev.size() - its;
        double best = -1e300;
        Vs prev;
        size_t known = bo.observations().size() - ev.size();
        for (size_t i = 0; i < known + ninit; i++)
            best = std::max(best, a(bo.observations()[i]));
        bool have = known + ninit > 0;
        int expect = -1;
        std::string why;
        double pred = a(VectorXd::Constant(set().dim_out, MPOpt::at() * set().dim_in));
        for (int i = 0; i <= its; i++) {
            if (i) {
                best = std::max(best, a(bo.observations()[known + ninit + i - 1]));
                have = true;
            }
            bool it = i >= set().iterations;
            bool cr = first && crit()[0] && crit()[0](i, tot0 + i, known + ninit + i);
            bool mp = mpv && have && best > set().ratio * pred;
            if (it || cr || mp) {
                expect = i;
                why = it ? "iterations" : cr ? "user criterion" : "predicted value";
                break;
            }
        }
        std::string w = mon::str(name, " run ", k, " ratio=", set().ratio, " predicted=", pred, " ", cfgs());
        mon::check(expect == its, "stopped-at", mon::str("stopped after ", its, " iterations instead of ", expect, " ", w));
        mon::check(bo.total_iterations() == tot0 + its, "total", w);
        if (expect >= 0)
            mon::event("stopped by " + why);
        if (expect == 0)
            mon::event("stopped before the first iteration");
        mon::evaluation(its + 1);
        mon::distinct(mon::Hash().add(mon::hash_str(name)).add(its).add(k).add(set().iterations).add(mon::hash_str(why)).add(reset).addd(best).h);
        mon::sample(mon::str(w, " -> ", its, " iterations, ", why));
        if (mon::S().nviol)
            return;
    }
}
void stop_case(mon::Rng& r)
{
    random_set(r);
    int n = r.integer(2, 30);
    if (r.coin(0.6))
        crit()[0] = [n](int, int, size_t s) { return s >= (size_t)n; };
    typedef stop::MaxPredictedValue<Params, MPOpt> MP;
    typedef stop::MaxIterations<Params> MI;
    std::cout.setstate(std::ios::failbit);
    switch (r.integer(0, 6)) {
    case 6: // without an optimiser of its own, the criterion uses the one of the acquisition function
        set().bounded = true;
        stop_run<bf::vector<stop::MaxPredictedValue<Params>, MI>, MPOpt>(r, true, false, false, "MaxPredictedValue with the default optimiser,MaxIterations");
        break;
    case 0: stop_run<MI>(r, false, false, false, "MaxIterations"); break;
    case 1: stop_run<bf::vector<MI>>(r, false, false, false, "vector<MaxIterations>"); break;
    case 2: stop_run<bf::vector<MI, MP>>(r, true, false, true, "MaxIterations,MaxPredictedValue"); break;
    case 3: stop_run<bf::vector<MP, MI, Crit<0>>>(r, true, true, true, "MaxPredictedValue,MaxIterations,user"); break;
    case 4: stop_run<bf::vector<Crit<0>, MI>>(r, false, true, false, "user,MaxIterations"); break;
    case 5: stop_run<bf::vector<Crit<0>, Crit<1>, MP, MI>>(r, true, true, true, "user,user,MaxPredictedValue,MaxIterations"); break;
    }
    std::cout.clear();
    // the chain is an 'or' of all the criteria
    bf::vector<Crit<0>, Crit<1>, Crit<2>> cs;
    BO bo;
    bool v[3];
    for (int i = 0; i < 3; i++) {
        v[i] = r.coin();
        bool b = v[i];
        crit()[i] = [b](int, int, size_t) { return b; };
    }
    Agg a;
    stop::ChainCriteria<BO, Agg> chain(bo, a);
    bool res = bf::accumulate(cs, false, chain);
    mon::check(res == (v[0] || v[1] || v[2]), "chain-or", mon::str(v[0], v[1], v[2], " -> ", res));
    mon::check(bf::accumulate(cs, true, chain), "chain-or-initial", "");
    mon::event("criteria combined");
    for (auto& c : crit())
        c = nullptr;
}

// ------------------------------------------------------------------ C16
template <typename I>
void init_run(mon::Rng& r, int kind)
{
    typedef bayes_opt::BOptimizer<Params, modelfun<Model>, acquifun<Acqui<>>, acquiopt<Opt>, initfun<I>, statsfun<bf::vector<Stat<0>>>, stopcrit<stop::MaxIterations<Params>>> B;
    static const char* names[] = {"random", "random grid", "grid", "lhs", "none"};
    set().samples = r.coin(0.05) ? 0 : r.coin(0.1) ? 1 : r.integer(2, 40);
    set().bins = r.coin(0.5) ? r.integer(1, 12) : r.pick(std::vector<int>{6, 7, 10, 13, 14, 15, 20, 30});
    if (kind == 2) {
        while (std::pow(set().bins + 1., set().dim_in) > 3000)
            r.coin() && set().bins > 1 ? --set().bins : set().dim_in > 1 ? --set().dim_in : 0;
    }
    if (kind == 3 && set().samples == 0)
        set().samples = 1;
    set().bounded = kind == 0 ? r.coin() : true;
    set().iterations = r.coin(0.8) ? 0 : r.integer(1, 3);
    int n = set().dim_in, b = set().bins;
    B bo;
    size_t from = tr().size();
    bo.optimize(Fun(), Agg(), true);
    std::vector<VectorXd> pts;
    Vs ys;
    for (size_t i = from; i < tr().size(); i++) {
        if (tr()[i].k == COMPUTE || tr()[i].k == NEWMODEL)
            break;
        if (tr()[i].k == EVAL) {
            pts.push_back(tr()[i].x);
            ys.push_back(tr()[i].y);
        }
    }
    std::string nm = names[kind], w = mon::str(nm, " samples=", set().samples, " bins=", b, " ", cfgs());
    // recorded in order
    bool ok = bo.samples().size() == pts.size() + bo.current_iteration() && bo.observations().size() == bo.samples().size();
    for (size_t i = 0; ok && i < pts.size(); i++)
        ok = bo.samples()[i] == pts[i] && bo.observations()[i] == ys[i];
    mon::check(ok, "recorded:" + nm, mon::str("evaluated ", pts.size(), " recorded ", bo.samples().size(), " ", w));
    double want = kind == 4 ? 0 : kind == 2 ? std::pow(b + 1., n) : set().samples;
    mon::check((double)pts.size() == want, "count:" + nm, mon::str(pts.size(), " points instead of ", want, " ", w));
    std::set<std::vector<int>> nodes;
    std::set<uint64_t> diff;
    bool outside = false;
    for (auto& p : pts) {
        mon::check(p.size() == n, "dim:" + nm, w);
        if (set().bounded)
            mon::check((p.array() >= 0).all() && (p.array() <= 1).all(), "bounds:" + nm, mon::str(mon::vec(p), " ", w));
        else {
            outside |= (p.array() < 0).any() || (p.array() > 1).any();
            for (int i = 0; i < n; i++)
                mon::check(std::isfinite(p(i)), "finite:" + nm, w);
        }
        diff.insert(mon::Hash().addv(p).h);
        if (kind == 1 || kind == 2) {
            std::vector<int> k(n);
            for (int i = 0; i < n; i++) {
                k[i] = (int)std::lround(p(i) * b);
                mon::check(std::fabs(p(i) - (double)k[i] / b) < 1e-9, "node:" + nm, mon::str(mon::vec(p), " ", w));
                if (kind == 1) {
                    mon::event(k[i] == 0 ? "random grid: lower end" : k[i] == b ? "random grid: upper end" : "random grid: inside");
                    if (b == 5)
                        mon::event(mon::str("random grid 5: level ", k[i]));
                }
            }
            nodes.insert(k);
        }
    }
    if (kind == 2)
        mon::check((double)nodes.size() == want, "all-nodes:" + nm, mon::str(nodes.size(), " different nodes of ", want, " ", w));
    if (kind == 0 || kind == 3)
        mon::check(diff.size() == pts.size(), "different:" + nm, mon::str(diff.size(), " different points of ", pts.size(), " ", w));
    if (kind == 0 && !set().bounded && (int)pts.size() * n >= 15) {
        mon::check(outside, "unbounded:" + nm, w);
        mon::event("unbounded designs");
    }
    if (kind == 0 && set().bounded && (int)pts.size() >= 30)
        for (int i = 0; i < n; i++) {
            double lo = 1, hi = 0;
            for (auto& p : pts) {
                lo = std::min(lo, p(i));
                hi = std::max(hi, p(i));
            }
            mon::check(lo < 0.6 && hi > 0.4, "spread:" + nm, mon::str("dimension ", i, " only covers ", lo, "..", hi, " ", w)); // < 1e-6... per design; 0.6^30 = 2e-7
        }
    if (kind == 3) {
        int N = pts.size();
        for (int i = 0; i < n; i++) {
            std::vector<double> v;
            for (auto& p : pts)
                v.push_back(p(i));
            std::sort(v.begin(), v.end());
            for (int k = 0; k < N; k++)
                mon::check(v[k] >= (double)k / N - 1e-12 && v[k] <= (k + 1.) / N + 1e-12, "stratum:" + nm, mon::str("dimension ", i, " stratum ", k, " has ", v[k], " ", w));
            mon::event("strata checked", N);
        }
    }
    mon::event("designs:" + nm);
    mon::event("points:" + nm, pts.size());
    mon::evaluation(pts.size() + 1);
    mon::distinct(mon::Hash().add(kind).add(n).add(b).add(set().samples).add(set().bounded).add(pts.empty() ? 0 : mon::Hash().addv(pts.back()).h).h);
    if (!pts.empty())
        mon::sample(mon::str(w, " last ", mon::vec(pts.back())));
}
void init_case(mon::Rng& r)
{
    random_set(r);
    switch (r.integer(0, 5)) {
    case 0: init_run<init::RandomSampling<Params>>(r, 0); break;
    case 1: init_run<init::RandomSamplingGrid<Params>>(r, 1); break;
    case 2: init_run<init::GridSampling<Params>>(r, 2); break;
    case 3:
    case 4: init_run<init::LHS<Params>>(r, 3); break;
    case 5: init_run<init::NoInit<Params>>(r, 4); break;
    }
}

int main(int argc, char** argv)
{
    mon::parse(argc, argv);
    std::string m = mon::S().mode;
    mon::run_cases([&](long k, mon::Rng& r) {
        if (m == "loop")
            loop_case(r, false);
        else if (m == "fault")
            r.coin(0.85) ? loop_case(r, true) : direct_case(r);
        else if (m == "best")
            loop_case(r, r.coin(0.3));
        else if (m == "stop")
            stop_case(r);
        else if (m == "init")
            init_case(r);
    });
    return mon::finish();
}
