#define NDEBUG
// Multipliers and step sizes: one update, whole runs of the subgradient, the step size schedule.
#include "inst.hpp"
#include "algorithms/ThreePhase.hpp"
using namespace vf;
static void update(Rnd& r, int size) {
    int n = r.in(1, 2 + size);
    CoverCounters cov;
    cov.reset((ridx_t)n);
    std::vector<int> want(n, 0);
    int adds = r.in(0, 3 * n);
    for (int k = 0; k < adds; ++k) {
        std::vector<ridx_t> c(1, (ridx_t)r.in(0, n - 1));
        ++want[c[0]];
        cov.cover(c);
    }
    std::vector<real_t> u(n), old;
    for (auto& x : u) x = r.p(20) ? 0.f : r.p(10) ? 1e6f : r.p(20) ? r.in(999990, 1000000) : r.in(0, 100) * 0.25f;
    old = u;
    static const float sf[] = {0.f, 1e-6f, 0.01f, 0.5f, 3.f, 1000.f, 1e6f, 1e20f};
    real_t f = sf[r.in(0, 7)];
    if (r.p(10)) f = -f;
    cur() << "coverage " << show(want) << " multipliers " << show(u) << " step factor " << f << "\n";
    Subgradient::_update_lagr_mult(cov, f, u);
    check(u.size() == old.size(), "number of multipliers changed");
    for (int i = 0; i < n; ++i) {
        std::string w = "row " + std::to_string(i) + ": " + std::to_string(old[i]) + " -> " + std::to_string(u[i]);
        check(std::isfinite(u[i]) && u[i] >= 0 && u[i] <= 1e6f, "multiplier out of its range, " + w);
        if (want[i] == 1) check(u[i] == old[i], "multiplier of a row covered once moved, " + w);
        double v = (double)old[i] + (double)f * (1 - want[i]), c = std::min(1e6, std::max(0.0, v));
        check(std::fabs(u[i] - c) <= 1e-5 * (1 + std::fabs(c) + std::fabs(old[i])), "expected " + std::to_string(c) + ", " + w);
    }
}
static void steps(Rnd& r, int size) {
    size_t period = (size_t)r.in(1, 6);
    real_t s = r.p(20) ? 9.f : r.p(20) ? 1.5e-6f : r.in(1, 100) * 0.01f;
    local::StepSizeManager next(period, s);
    double mn = 1e300, mx = -1e300, cur_s = s;
    cur() << "period " << period << " initial step " << s << "\n";
    float base = r.in(1, 1000);
    int kind = r.in(0, 2);
    for (size_t it = 0; it < 4 * period * (size_t)size; ++it) {
        float lb = kind == 0 ? base : kind == 1 ? base + r.in(0, 100) * 0.0001f * base : base + r.in(0, 100);
        if (r.p(3)) lb = -lb;
        mn = std::min(mn, (double)lb); mx = std::max(mx, (double)lb);
        real_t got = next(it, lb);
        cur() << "iteration " << it << " bound " << lb << " step " << got << "\n";
        if (it > 0 && it % period == 0) {
            double d = ((double)(float)(mx - mn)) / std::fabs(mx), want = cur_s;
            if (mx == 0 || std::fabs(d - 0.01) < 1e-5 || std::fabs(d - 0.001) < 1e-6) want = got;
            else {
                if (d > 0.01) want /= 2;
                if (d <= 0.001) want *= 1.5;
                want = std::min(10.0, std::max(1e-6, want));
            }
            check(std::fabs(got - want) <= 1e-4 * want, "step size " + std::to_string(got) + " after a period with bounds from " + std::to_string(mn) + " to " + std::to_string(mx) + ", expected " + std::to_string(want));
            check(got >= 0.99e-6f && got <= 10.0f, "step size out of its limits");
            cur_s = got;
            mn = 1e300; mx = -1e300;
        } else check(got == (float)cur_s, "step size changed inside a period");
    }
}
static void whole(Rnd& r, int size) {
    GenOpt o;
    o.max_rows = 14; o.max_cols = 60;
    Instance in = gen_inst(r, 2 * size, o);
    describe(in);
    Environment env;
    env.verbose = 0;
    env.heur_iters = (uint64_t)r.in(0, 60);
    InstAndMap core;
    std::vector<real_t> u(in.rows.size());
    for (auto& x : u) x = r.in(0, 40) * 0.25f;
    Pricer price;
    price(in, u, core);
    Subgradient sg;
    double total = 0;
    for (real_t c : in.costs) total += c;
    real_t step = r.in(1, 200) * 0.01f, cutoff = (float)(total * r.in(20, 100) / 100);
    cur() << "multipliers " << show(u) << " step " << step << " cutoff " << cutoff << "\n";
    sg(env, in, cutoff, price, core, step, u);
    check(u.size() == in.rows.size(), "number of multipliers");
    for (real_t x : u) check(std::isfinite(x) && x >= 0 && x <= 1e6f, "multiplier out of its range after the subgradient: " + std::to_string(x));
    check(step >= 0.99e-6f && step <= 10.0f, "step size out of its limits: " + std::to_string(step));
    Solution best;
    for (size_t j = 0; j < core.inst.cols.size(); ++j) best.idxs.push_back((cidx_t)j);
    best.cost = 0;
    for (real_t c : core.inst.costs) best.cost += c;
    Greedy greedy;
    sg.heuristic(env, core.inst, step, greedy, best, u);
    for (real_t x : u) check(std::isfinite(x) && x >= 0 && x <= 1e6f, "multiplier out of its range after the heuristic phase: " + std::to_string(x));
}
static void start(Rnd& r, int size) {       // the multipliers the search starts from
    GenOpt o;
    o.max_rows = 14; o.max_cols = 40;
    Instance in = gen_inst(r, 2 * size, o);
    describe(in);
    std::vector<real_t> u;
    ThreePhase::_compute_greedy_multipliers(in, u);
    check(u.size() == in.rows.size(), "one multiplier per row expected");
    for (real_t x : u) check(std::isfinite(x) && x >= 0, "initial multiplier negative or infinite");
    std::vector<real_t> p = u;
    prng_t rnd(r.next());
    ThreePhase::_perturb_lagr_multipliers(p, rnd);
    check(p.size() == u.size(), "one multiplier per row expected");
    for (size_t i = 0; i < p.size(); ++i)
        check(std::isfinite(p[i]) && p[i] >= 0 && p[i] >= 0.8999f * u[i] && p[i] <= 1.1001f * u[i], "perturbed multiplier " + std::to_string(p[i]) + " too far from " + std::to_string(u[i]));
}
static void one(Rnd& r, int size) {
    int k = r.in(0, 9);
    if (k < 4) update(r, size);
    else if (k < 6) steps(r, size);
    else if (k < 8) whole(r, size);
    else start(r, size);
}
int main(int c, char** v) { return drive(c, v, one, 12); }
