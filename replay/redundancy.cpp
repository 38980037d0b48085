// Redundancy removal on covers: still a cover, exact cost, optimal up to ten redundant columns.
#define NDEBUG
#include "inst.hpp"
#include "greedy/redundancy.hpp"
#include "greedy/Greedy.hpp"
using namespace vf;
static void one(Rnd& r, int size) {
    GenOpt o;
    o.max_rows = 16; o.max_cols = 40;
    Instance in = gen_inst(r, r.p(40) ? 2 * size : size, o);
    int nr = (int)in.rows.size(), nc = (int)in.cols.size();
    Mat m = cols_of(in);
    std::vector<cidx_t> order, sol;
    for (int j = 0; j < nc; ++j) order.push_back(j);
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.in(0, (int)k - 1)]);
    int extra = r.in(0, 16);
    for (cidx_t j : order) { bool cov = is_cover(in, sol); if (cov && extra-- <= 0) break; sol.push_back(j); }
    double tot = cost_of(in, sol);
    real_t cutoff = r.p(40) ? limits<real_t>::max() : (real_t)r.in(0, (int)tot + 2);
    describe(in);
    cur() << "cover " << show(sol) << " cutoff " << cutoff << "\n";
    std::vector<int> cnt(nr, 0);
    for (cidx_t j : sol) for (int i : m[j]) ++cnt[i];
    std::vector<cidx_t> red;
    double base = 0;
    for (cidx_t j : sol) { bool q = true; for (int i : m[j]) q = q && cnt[i] > 1; if (q) red.push_back(j); else base += in.costs[j]; }
    double best = 1e30;
    if (red.size() <= 10)
        for (unsigned s = 0; s < (1u << red.size()); ++s) {
            std::vector<int> c(nr, 0);
            double t = base;
            for (cidx_t j : sol) {
                auto p = std::find(red.begin(), red.end(), j);
                if (p != red.end()) { if (!(s >> (p - red.begin()) & 1)) continue; t += in.costs[j]; }
                for (int i : m[j]) ++c[i];
            }
            if (t < best && std::count(c.begin(), c.end(), 0) == 0) best = t;
        }
    RedundancyData rd;
    if (r.p(50)) {      // left over from another call
        rd.redund_set.push_back({0, 1.f}); rd.cols_to_remove = {0}; rd.best_cost = 3; rd.partial_cost = 7; rd.partial_cov_count = 1;
        rd.partial_cover.reset(nr); rd.partial_cover.cover(in.cols[0]);
    }
    rd.total_cover.reset(nr);
    for (cidx_t j : sol) rd.total_cover.cover(in.cols[j]);
    complete_init_redund_set(in, sol, cutoff, rd);
    if (rd.partial_cost >= cutoff) { check(base >= cutoff - 1e-3, "gave up although the necessary columns cost less than the cutoff"); return; }
    std::set<cidx_t> rs;
    for (auto x : rd.redund_set) { rs.insert(x.idx); check(x.cost == in.costs[x.idx], "wrong cost of a redundant column"); }
    check(rs == std::set<cidx_t>(red.begin(), red.end()) && rd.redund_set.size() == red.size(), "the redundant columns are not exactly those whose rows are all covered twice");
    check(std::fabs(rd.partial_cost - base) < 1e-3, "wrong cost of the necessary columns");
    heuristic_removal(in, rd);
    auto cover_after = [&](std::vector<cidx_t> const& rem) {
        std::vector<cidx_t> t;
        for (cidx_t j : sol) if (!std::count(rem.begin(), rem.end(), j)) t.push_back(j);
        return t;
    };
    check(is_cover(in, cover_after(rd.cols_to_remove)), "not a cover after the heuristic removal");
    if (red.size() <= 10) check(rd.cols_to_remove.empty(), "heuristic removal with at most ten redundant columns");
    for (cidx_t j : rd.cols_to_remove) check(rs.count(j), "removed a column that was not redundant");
    if (rd.partial_cost >= rd.best_cost) return;
    if (rd.redund_set.size() > 10) {
        check((int)rd.partial_cov_count == nr, "heuristic removal stopped with more than ten redundant columns");
        return;
    }
    size_t before = rd.cols_to_remove.size();
    (void)before;
    enumeration_removal(in, rd);
    std::vector<cidx_t> left = cover_after(rd.cols_to_remove);
    check(std::set<cidx_t>(rd.cols_to_remove.begin(), rd.cols_to_remove.end()).size() == rd.cols_to_remove.size(), "a column removed twice");
    check(is_cover(in, left), "not a cover after the enumeration: removed " + show(rd.cols_to_remove));
    if (rd.best_cost < cutoff) check(std::fabs(cost_of(in, left) - rd.best_cost) < 1e-3, "reported cost " + std::to_string(rd.best_cost) + " but the columns left cost " + std::to_string(cost_of(in, left)));
    if (!red.empty() && red.size() <= 10) {
        if (best < cutoff - 1e-3) check(std::fabs(rd.best_cost - best) < 1e-3, "reported " + std::to_string(rd.best_cost) + ", the cheapest completion costs " + std::to_string(best));
        else check(rd.best_cost >= cutoff - 1e-3, "below the cutoff but no completion is");
    }
}
int main(int c, char** v) { return drive(c, v, one, 20); }
