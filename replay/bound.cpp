#define NDEBUG
// Lower bounds against the optimum (dynamic programming over row subsets): subgradient, pricing, the whole solver.
#include "inst.hpp"
#include "algorithms/Refinement.hpp"
using namespace vf;
static void one(Rnd& r, int size) {
    GenOpt o;
    o.max_rows = 11; o.max_cols = 40;
    o.max_cost = r.p(20) ? 1 : r.p(30) ? 100 : 9;
    Instance in = gen_inst(r, r.p(30) ? size + r.in(0, 25) : size, o);
    if (r.p(20)) for (auto& c : in.costs) c += r.in(0, 3) * 0.25f;
    Environment env;
    env.verbose = 0;
    env.seed = r.next();
    env.rnd = prng_t(env.seed);
    env.heur_iters = (uint64_t)r.in(0, 30);
    static const float eps[] = {0.999f, 0.999f, 0.f, 0.1f, 1e-3f};
    env.epsilon = eps[r.in(0, 4)];
    if (r.p(15)) env.time_limit = r.p(50) ? 0.0 : r.in(0, 30) * 1e-4;
    if (r.p(20)) { env.abs_subgrad_exit = r.in(0, 20) * 0.1f; env.rel_subgrad_exit = r.in(0, 20) * 0.001f; }
    describe(in);
    double opt = optimum(in), tol = 1e-3 * (1 + std::fabs(opt));
    Mat m = cols_of(in);
    auto lagr = [&](std::vector<real_t> const& u) {
        double t = 0;
        for (real_t x : u) t += x;
        for (size_t j = 0; j < m.size(); ++j) { double c = in.costs[j]; for (int i : m[j]) c -= u[i]; if (c < 0) t += c; }
        return t;
    };
    if (r.p(45)) {
        InstAndMap core;
        std::vector<real_t> u(in.rows.size());
        for (auto& x : u) x = (float)r.in(0, r.p(50) ? 5 : 40) * 0.25f;
        Pricer price;
        real_t lb = price(in, u, core);
        cur() << "multipliers " << show(u) << "\n";
        check(lb <= opt + tol, "pricing: bound " + std::to_string(lb) + " above the optimum " + std::to_string(opt));
        Subgradient sg;
        real_t cutoff = (float)(opt + r.in(0, 10));
        real_t step = r.p(50) ? 0.1f : r.in(1, 100) * 0.01f;
        cur() << "subgradient: cutoff " << cutoff << " step " << step << " epsilon " << env.epsilon << "\n";
        lb = sg(env, in, cutoff, price, core, step, u);
        check(lb <= opt + tol, "subgradient: bound " + std::to_string(lb) + " above the optimum " + std::to_string(opt));
        check(u.size() == in.rows.size(), "one multiplier per row expected");
        for (real_t x : u) check(x >= 0 && std::isfinite(x), "negative or infinite multiplier");
        check(lagr(u) <= opt + tol, "multipliers: Lagrangian value above the optimum");
        return;
    }
    if (r.p(40)) {
        ThreePhase tp;
        cur() << "three-phase, seed " << env.seed << " heur_iters " << env.heur_iters << " epsilon " << env.epsilon << " time_limit " << env.time_limit << "\n";
        std::vector<real_t> u;
        Solution s;
        {
            Instance cp = in;
            auto res = tp(env, cp);
            check(res.dual.lb <= opt + tol, "three-phase: bound " + std::to_string(res.dual.lb) + " above the optimum " + std::to_string(opt));
            check(res.dual.mults.size() == in.rows.size(), "one multiplier per row expected");
            for (real_t x : res.dual.mults) check(x >= 0 && std::isfinite(x), "negative or infinite multiplier");
        }
        return;
    }
    cur() << "solver, seed " << env.seed << " heur_iters " << env.heur_iters << " epsilon " << env.epsilon << " time_limit " << env.time_limit << "\n";
    CftResult res = cft::run(env, in);
    check(res.dual.mults.size() == in.rows.size(), "one multiplier per row expected");
    for (real_t u : res.dual.mults) check(u >= 0 && std::isfinite(u), "negative or infinite multiplier");
    check(res.dual.lb <= opt + tol, "lower bound " + std::to_string(res.dual.lb) + " above the optimum " + std::to_string(opt));
}
int main(int c, char** v) { return drive(c, v, one, 14); }
