// The greedy heuristic against its contract: cover, cost, cutoff, size limit, best score at every pick.
#define NDEBUG
#include "inst.hpp"
#include "greedy/Greedy.hpp"
using namespace vf;
static void one(Rnd& r, int size) {
    GenOpt o;
    o.max_rows = 24; o.max_cols = 60;
    Instance in;
    if (r.p(70)) in = gen_inst(r, r.p(40) ? size * 3 : size, o);
    else {      // columns made redundant by later ones: a few wide columns, many narrow ones
        int n = r.in(3, 16);
        Mat m;
        std::vector<int> c;
        std::vector<int> all;
        for (int i = 0; i < n; ++i) all.push_back(i);
        for (int i = 0; i < n; ++i) {
            std::vector<int> k{i};
            if (r.p(80)) k.push_back(n + i);
            if (r.p(20)) k.push_back(r.in(0, i) == i ? (i + 1) % n : r.in(0, n - 1));
            std::sort(k.begin(), k.end()); k.erase(std::unique(k.begin(), k.end()), k.end());
            m.push_back(k); c.push_back(r.in(1, 12));
        }
        m.push_back(all); c.push_back(r.in(1, 3 * n));
        std::vector<int> ys;
        for (int i = 0; i < n; ++i) ys.push_back(n + i);
        ys.push_back(2 * n);
        m.push_back(ys); c.push_back(r.in(1, 1000));
        for (int k = r.in(0, 4); k > 0; --k) {
            std::vector<int> x;
            for (int i = 0; i <= 2 * n; ++i) if (r.p(30)) x.push_back(i);
            if (x.empty()) x.push_back(0);
            m.push_back(x); c.push_back(r.in(1, 40));
        }
        in = make_inst(m, c, 2 * n + 1);
    }
    describe(in);
    int nr = (int)in.rows.size(), nc = (int)in.cols.size();
    std::vector<real_t> u(nr), rc(nc);
    int um = r.p(40) ? 0 : r.in(1, 24);
    for (auto& x : u) x = r.in(0, um) * 0.25f;
    Mat m = cols_of(in);
    bool pure = r.p(30);
    for (int j = 0; j < nc; ++j) { rc[j] = in.costs[j]; if (!pure) for (int i : m[j]) rc[j] -= u[i]; }
    std::vector<cidx_t> sol;
    if (r.p(30)) { int k = r.in(0, 3); std::set<int> s; while (k-- > 0) s.insert(r.in(0, nc - 1)); sol.assign(s.begin(), s.end()); for (size_t q = sol.size(); q > 1; --q) std::swap(sol[q - 1], sol[r.in(0, (int)q - 1)]); }
    real_t cutoff = r.p(50) ? limits<real_t>::max() : (real_t)r.in(0, 60);
    cidx_t lim = r.p(60) ? limits<cidx_t>::max() : r.in(0, 6);
    cur() << "multipliers " << show(u) << "\nreduced costs " << show(rc) << "\npartial selection " << show(sol) << " cutoff " << cutoff << " size limit " << lim << "\n";
    std::vector<cidx_t> sol0 = sol;
    auto rows_of = [&](std::vector<cidx_t> const& s) { std::set<int> c; for (cidx_t j : s) c.insert(m[j].begin(), m[j].end()); return c; };
    Greedy g;
    for (int k = r.in(0, 2); k > 0; --k) {          // leave something in the caches
        std::vector<cidx_t> t;
        g(in, u, rc, t, r.p(50) ? limits<real_t>::max() : (real_t)r.in(0, 20), r.p(50) ? limits<cidx_t>::max() : r.in(1, 4));
    }
    real_t ret = g(in, u, rc, sol, cutoff, lim);
    cur() << "returned " << ret << " selection " << show(sol) << "\n";
    std::set<cidx_t> d(sol.begin(), sol.end());
    check(d.size() == sol.size(), "repeated column");
    for (cidx_t j : sol) check(j >= 0 && j < nc, "column index out of range");
    auto cov0 = rows_of(sol0), cov = rows_of(sol);
    for (int i : cov0) check(cov.count(i), "a row covered by the partial selection is not covered any more");
    bool complete0 = (int)cov0.size() == nr;
    if (complete0 || (cidx_t)sol0.size() >= lim) {
        check(sol == sol0 && ret == limits<real_t>::max(), "nothing to add, but the selection changed or a cost was returned");
        return;
    }
    bool limited = lim < nc + 5;
    check((cidx_t)sol.size() <= lim || limited == false, "more columns than the limit");
    if (ret < cutoff) {
        check(limited || (int)cov.size() == nr, "a cost below the cutoff was returned, but the selection is not a cover");
        if ((int)cov.size() == nr || true) check(std::fabs(cost_of(in, sol) - ret) < 1e-3, "the cost returned is not the cost of the selection: " + std::to_string(cost_of(in, sol)));
    } else if (cutoff == limits<real_t>::max()) fail("no cost returned without a cutoff");
    else {      // discarded: keeping everything that is not redundant must already be too expensive
        std::vector<int> cnt(nr, 0);
        for (cidx_t j : sol) for (int i : m[j]) ++cnt[i];
        if ((int)cov.size() == nr && sol.size() <= 16) {
            double best = 1e30;       // cheapest subset that is still a cover
            std::vector<cidx_t> red;
            double base = 0;
            for (cidx_t j : sol) { bool q = true; for (int i : m[j]) q = q && cnt[i] > 1; if (q) red.push_back(j); else base += in.costs[j]; }
            if (red.size() <= 10) {
                for (unsigned s = 0; s < (1u << red.size()); ++s) {
                    std::vector<cidx_t> t;
                    for (cidx_t j : sol) { auto p = std::find(red.begin(), red.end(), j); if (p == red.end() || (s >> (p - red.begin()) & 1)) t.push_back(j); }
                    if ((int)rows_of(t).size() == nr) best = std::min(best, cost_of(in, t));
                }
                check(best >= cutoff - 1e-3, "discarded although a subset costs " + std::to_string(best));
            }
        }
    }
    // best score at every pick, when nothing was removed
    if (sol.size() >= sol0.size() && std::equal(sol0.begin(), sol0.end(), sol.begin()) && ((cidx_t)sol.size() == lim || ret >= cutoff || limited == false)) {
        std::vector<cidx_t> t = sol0;
        std::vector<bool> c(nr, false);
        for (int i : cov0) c[i] = true;
        bool full = true;       // were columns removed? replay: each pick must cover something new
        for (size_t k = sol0.size(); k < sol.size() && full; ++k) {
            bool nw = false;
            for (int i : m[sol[k]]) nw = nw || !c[i];
            full = nw;
            for (int i : m[sol[k]]) c[i] = true;
        }
        // only certain when the limit was reached exactly
        if (full && (cidx_t)sol.size() == lim) {
            c.assign(nr, false);
            for (int i : cov0) c[i] = true;
            for (size_t k = sol0.size(); k < sol.size(); ++k) {
                auto score = [&](int j) {
                    double ga = rc[j]; int mu = 0;
                    for (int i : m[j]) if (c[i]) ga += u[i]; else ++mu;
                    return mu == 0 ? 1e38 : ga > 0 ? ga / mu : ga * mu;
                };
                double b = 1e38;
                for (int j = 0; j < nc; ++j) b = std::min(b, score(j));
                check(score(sol[k]) <= b + 1e-4 * (1 + std::fabs(b)), "column " + std::to_string(sol[k]) + " picked with score " + std::to_string(score(sol[k])) + ", the best is " + std::to_string(b));
                for (int i : m[sol[k]]) c[i] = true;
            }
        }
    }
}
int main(int c, char** v) { return drive(c, v, one, 20); }
