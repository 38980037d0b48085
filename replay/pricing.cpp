// Pricing and the initial core problem: distinct copies of columns of the problem, rows rebuilt, the cheapest kept.
#include "inst.hpp"
#include "subgradient/Pricer.hpp"
#include "algorithms/ThreePhase.hpp"
using namespace vf;
static void check_core(Instance const& in, InstAndMap const& core, std::string const& w) {
    std::set<cidx_t> d(core.col_map.begin(), core.col_map.end());
    check(d.size() == core.col_map.size(), w + ": a column occurs twice in the core problem " + show(core.col_map));
    check(core.inst.cols.size() == core.col_map.size(), w + ": number of core columns");
    check(core.inst.costs.size() == core.col_map.size(), w + ": number of core costs");
    Mat a = cols_of(in), b = cols_of(core.inst);
    for (size_t k = 0; k < b.size(); ++k) {
        cidx_t j = core.col_map[k];
        check(j >= 0 && (size_t)j < a.size(), w + ": column index out of range");
        check(b[k] == a[j], w + ": core column " + std::to_string(k) + " differs from column " + std::to_string(j));
        check(core.inst.costs[k] == in.costs[j], w + ": cost of core column " + std::to_string(k) + " differs from column " + std::to_string(j));
    }
    check(core.inst.rows.size() == in.rows.size(), w + ": number of rows");
    check_rows(core.inst, w);
    for (size_t i = 0; i < in.rows.size(); ++i)
        check(core.inst.rows[i].size() >= std::min<size_t>(5, in.rows[i].size()),
              w + ": row " + std::to_string(i) + " keeps " + std::to_string(core.inst.rows[i].size()) + " columns of " + std::to_string(in.rows[i].size()));
}
static void one(Rnd& r, int size) {
    GenOpt o;
    o.max_rows = 12; o.max_cols = 160;
    int mode = r.in(0, 3);
    Instance in;
    if (mode == 0) in = gen_inst(r, size * 6, o);
    else {       // few rows, many columns: more cheap columns than five per row
        int nr = r.in(1, mode == 1 ? 3 : 8), nc = r.in(nr, mode == 1 ? 60 : 120);
        Mat m(nc);
        std::vector<int> c;
        int dens = r.in(5, 90);
        for (int j = 0; j < nc; ++j) {
            for (int i = 0; i < nr; ++i) if (r.p(dens)) m[j].push_back(i);
            if (m[j].empty()) m[j].push_back(j % nr);
            c.push_back(r.in(1, r.p(50) ? 3 : 50));
        }
        for (int i = 0; i < nr; ++i) if (!std::count(m[i].begin(), m[i].end(), i)) m[i].push_back(i);
        in = make_inst(m, c, nr);
    }
    describe(in);
    InstAndMap core;
    if (r.p(50)) {        // whatever was there before
        GenOpt g;
        core.inst = gen_inst(r, size, g);
        dirty(r, core.col_map);
    }
    Instance copy = in;
    if (r.p(35)) {
        ThreePhase::_build_tentative_core_instance(in, core);
        check(same(copy, in), "initial core: the problem was modified");
        return check_core(in, core, "initial core");
    }
    Pricer price;
    int rounds = r.in(1, 3);
    for (int k = 0; k < rounds; ++k) {
        std::vector<real_t> u(in.rows.size());
        int kind = r.in(0, 3);
        for (auto& x : u) x = kind == 0 ? 0.f : kind == 1 ? (float)r.in(0, 40) : (float)r.in(0, 400) * 0.125f;
        cur() << "multipliers " << show(u) << "\n";
        real_t lb = price(in, u, core);
        check(same(copy, in), "pricing: the problem was modified");
        check_core(in, core, "pricing");
        std::vector<double> rc;
        Mat m = cols_of(in);
        double want = 0;
        for (real_t x : u) want += x;
        for (size_t j = 0; j < m.size(); ++j) {
            double c = in.costs[j];
            for (int i : m[j]) c -= u[i];
            rc.push_back(c);
            if (c < 0) want += c;
        }
        check(std::fabs(lb - want) <= 1e-3 * (1 + std::fabs(want)), "pricing: the bound returned is " + std::to_string(lb) + ", the Lagrangian value is " + std::to_string(want));
        std::vector<bool> in_core(m.size(), false);
        for (cidx_t j : core.col_map) in_core[j] = true;
        // multiples of 1/8: exact in float
        for (size_t i = 0; i < in.rows.size(); ++i) {
            std::vector<double> all, kept;
            for (cidx_t j : in.rows[i]) { all.push_back(rc[j]); if (in_core[j]) kept.push_back(rc[j]); }
            std::sort(all.begin(), all.end());
            std::sort(kept.begin(), kept.end());
            for (size_t t = 0; t < 5 && t < all.size(); ++t)
                check(kept.size() > t && kept[t] == all[t], "pricing: row " + std::to_string(i) + " does not keep its five columns of smallest reduced cost");
        }
        std::vector<double> cheap, cheap_in;
        for (size_t j = 0; j < m.size(); ++j) if (rc[j] < 0.1) { cheap.push_back(rc[j]); if (in_core[j]) cheap_in.push_back(rc[j]); }
        std::sort(cheap.begin(), cheap.end());
        std::sort(cheap_in.begin(), cheap_in.end());
        for (size_t t = 0; t < cheap.size() && t < 5 * in.rows.size(); ++t)
            check(cheap_in.size() > t && cheap_in[t] == cheap[t], "pricing: columns of small reduced cost are left out, or not the cheapest of them are kept");
    }
}
int main(int c, char** v) { return drive(c, v, one, 12); }
