#define NDEBUG
// The whole solver on small instances, for many option settings. PROP selects the property looked at:
// 1 the solution is a cover of distinct valid columns, 2 its cost is the sum of its columns' costs, 3 a warm start is never made worse.
#ifndef PROP
#define PROP 0
#endif
#include "inst.hpp"
#include "algorithms/Refinement.hpp"
using namespace vf;
static int solves = 0;
static void judge(Instance const& in, Solution const& s) {
    if (PROP == 0 || PROP == 1) check_solution(in, s.idxs, cost_of(in, s.idxs), "solution");
    if (PROP == 0 || PROP == 2) {
        for (cidx_t j : s.idxs) if (j < 0 || (size_t)j >= in.cols.size()) return;
        double c = cost_of(in, s.idxs);
        check(std::fabs(c - s.cost) <= 1e-4 * (1 + std::fabs(c)), "cost " + std::to_string(s.cost) + " reported, but the columns " + show(s.idxs) + " cost " + std::to_string(c));
    }
}
// A wide free column, narrow free columns and a hard rest: refinement alternates between fixing and not fixing.
static void hard(Rnd& r) {
    r.in(0, 40); if (!r.p(20)) r.p(20); r.p(25);
    int n = r.in(150, 300), z = n * 35 / 100, y = n * 72 / 100, nc = (n - y) * r.in(3, 8);
    Mat m(1);
    std::vector<int> c(1, 0);
    for (int i = 0; i < z; ++i) m[0].push_back(i);
    for (int i = z; i < y; i += 4) { std::vector<int> v; for (int k = i; k < i + 4 && k < y; ++k) v.push_back(k); m.push_back(v); c.push_back(0); }
    int h = (int)m.size();
    for (int j = 0; j < nc; ++j) {
        int k = r.in(2, 6);
        std::set<int> q;
        while (k--) q.insert(r.in(y, n - 1));
        m.push_back(std::vector<int>(q.begin(), q.end()));
        c.push_back(r.in(10, 100));
    }
    for (int i = y; i < n; ++i) { auto& v = m[r.in(h, (int)m.size() - 1)]; if (!std::count(v.begin(), v.end(), i)) v.push_back(i); }
    Instance in = make_inst(m, c, n);
    Environment env;
    env.verbose = 0;
    env.seed = r.next();
    env.rnd = prng_t(env.seed);
    env.heur_iters = r.in(0, 6);
    int zp = r.in(0, 15);
    for (auto& x : in.costs) x = r.p(zp) ? 0 : r.in(20, 100);
    env.epsilon = 0.01f;
    env.beta = 0;
    env.alpha = 1.19f;
    cur() << "structured instance (function hard of replay/run.cpp), " << n << " rows\n";
    CftResult res = cft::run(env, in);
    judge(in, res.sol);
}
static void one(Rnd& r, int size) {
    if (PROP != 3 && r.in(0, 999) == 0) return hard(r);
    GenOpt o;
    o.max_rows = 12; o.max_cols = 30;
    o.max_cost = r.p(20) ? 1 : r.p(20) ? 100 : 9;
    int sz = r.p(25) ? size + r.in(0, 12) : size;
    Instance in = gen_inst(r, sz, o);
    if (r.p(15))       // fractional costs
        for (auto& c : in.costs) c += r.in(0, 3) * 0.25f;
    else if (r.p(15))  // costs whose sums are rounded
        for (auto& c : in.costs) c += r.in(0, 999999) * 1e-6f;
    if (r.p(10) && in.costs.size() > 2) {      // some very expensive columns
        in.costs[r.in(0, (int)in.costs.size() - 1)] = 1000.f;
    }
    Environment env;
    env.verbose = 0;
    env.seed = r.next();
    env.rnd = prng_t(env.seed);
    env.heur_iters = r.p(50) ? r.in(0, 10) : r.p(50) ? 40 : 250;
    static const float eps[] = {0.999f, 0.999f, 0.999f, 0.f, 0.1f, 1e-3f, 2.5f};
    env.epsilon = eps[r.in(0, 6)];
    static const float beta[] = {1.f, 1.f, 1.f, 0.9f, 1.1f, 0.f};
    env.beta = beta[r.in(0, 5)];
    if (r.p(20)) env.time_limit = r.p(50) ? 0.0 : r.in(0, 30) * 1e-4;
    if (r.p(20)) { env.abs_subgrad_exit = r.in(0, 20) * 0.1f; env.rel_subgrad_exit = r.in(0, 20) * 0.001f; }
    describe(in);
    cur() << "seed " << env.seed << " heur_iters " << env.heur_iters << " epsilon " << env.epsilon << " beta " << env.beta << " time_limit "
          << env.time_limit << " abs_subgrad_exit " << env.abs_subgrad_exit << " rel_subgrad_exit " << env.rel_subgrad_exit << "\n";
    double opt = in.rows.size() <= 12 ? optimum(in) : -1;
    Solution warm;
    warm.cost = 0;
    bool ws = r.p(PROP == 3 ? 85 : 30);
    if (ws) {       // random minimal-ish cover
        std::vector<cidx_t> order;
        for (cidx_t j = 0; j < (cidx_t)in.cols.size(); ++j) order.push_back(j);
        for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.in(0, (int)k - 1)]);
        for (cidx_t j : order) { warm.idxs.push_back(j); if (is_cover(in, warm.idxs)) break; }
        if (r.p(70)) for (size_t k = 0; k < warm.idxs.size();) {
            auto t = warm.idxs; t.erase(t.begin() + k);
            if (is_cover(in, t)) warm.idxs = t; else ++k;
        }
        warm.cost = (float)cost_of(in, warm.idxs);
        cur() << "warm start " << show(warm.idxs) << " cost " << warm.cost << "\n";
    }
    if (r.p(10)) {      // the search alone, twice with the same object
        ThreePhase three;
        for (int k = 0; k < 2; ++k) {
            Instance work = in;
            cur() << "ThreePhase, call " << k + 1 << "\n";
            judge(in, three(env, work).sol);
        }
    }
    Instance copy = in;
    CftResult res = ws ? cft::run(env, in, warm) : cft::run(env, in);
    check(same(copy, in), "the given instance was modified");
    judge(in, res.sol);
    if (ws && (PROP == 0 || PROP == 3)) {
        check(res.sol.cost <= warm.cost + 1e-4 * (1 + std::fabs(warm.cost)), "worse than the warm start: cost " + std::to_string(res.sol.cost));
        check(cost_of(in, res.sol.idxs) <= warm.cost + 1e-3 * (1 + std::fabs(warm.cost)), "the columns returned cost more than the warm start");
        if (res.sol.cost >= warm.cost) {
            check(res.sol.idxs == warm.idxs, "no cheaper solution, but not the warm start itself is returned: " + show(res.sol.idxs));
        }
    }
    ++solves;
}
int main(int c, char** v) {
    bool first = true;
    return drive(c, v, [&](Rnd& r, int size) {
        if (first && PROP != 3) { first = false; Rnd q(4756001599450499349ull); return hard(q); }
        one(r, size);
    }, 14);
}
