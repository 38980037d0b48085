// Random instances and reference answers.
#ifndef VF_REPLAY_INST
#define VF_REPLAY_INST
#include "common.hpp"
#include <fmt/core.h>
#include <fmt/format.h>
#include "core/cft.hpp"
#include "core/Instance.hpp"
#include "utils/CoverCounters.hpp"
namespace vf {
using namespace cft;
typedef std::vector<std::vector<int>> Mat;

struct GenOpt {
    int max_rows = 12, max_cols = 16;
    bool empty_cols = false;     // columns without rows
    int max_cost = 9;
    bool zero_cost = true;
};

inline void describe(Instance const& in, char const* nm = "instance") {
    cur() << nm << ": " << in.rows.size() << " rows\n";
    for (size_t j = 0; j < in.cols.size(); ++j) {
        cur() << "  column " << j << " cost " << in.costs[j] << " rows";
        for (size_t p = in.cols.begs[j]; p < in.cols.begs[j + 1]; ++p) cur() << " " << in.cols.idxs[p];
        cur() << "\n";
    }
}
inline Mat cols_of(Instance const& in) {
    Mat m;
    for (size_t j = 0; j + 1 < in.cols.begs.size(); ++j)
        m.push_back(std::vector<int>(in.cols.idxs.begin() + in.cols.begs[j], in.cols.idxs.begin() + in.cols.begs[j + 1]));
    return m;
}
inline void set_rows(Instance& in, int nrows) {        // independent of the code under test
    in.rows.assign(nrows, {});
    Mat m = cols_of(in);
    for (size_t j = 0; j < m.size(); ++j) for (int i : m[j]) in.rows[i].push_back((cidx_t)j);
}
inline Instance make_inst(Mat const& cols, std::vector<int> const& costs, int nrows) {
    Instance in;
    in.cols.begs = {0};
    for (auto const& c : cols) {
        for (int i : c) in.cols.idxs.push_back((ridx_t)i);
        in.cols.begs.push_back(in.cols.idxs.size());
    }
    for (int c : costs) in.costs.push_back((real_t)c);
    set_rows(in, nrows);
    return in;
}
// every row is covered by some column; no duplicate row inside a column
inline Instance gen_inst(Rnd& r, int size, GenOpt o = GenOpt()) {
    int nr = r.in(1, std::max(1, std::min(o.max_rows, size + 1)));
    int nc = r.in(1, std::max(1, std::min(o.max_cols, size + 3)));
    Mat m(nc);
    int dens = r.in(10, 80);
    for (auto& c : m) for (int i = 0; i < nr; ++i) if (r.p(dens)) c.push_back(i);
    for (int i = 0; i < nr; ++i) {
        bool cov = false;
        for (auto& c : m) cov = cov || std::count(c.begin(), c.end(), i);
        if (!cov) m[r.in(0, nc - 1)].push_back(i);
    }
    std::vector<int> costs;
    int mc = r.p(30) ? 1 : o.max_cost;
    for (auto& c : m) {
        if (c.empty() && !o.empty_cols) c.push_back(r.in(0, nr - 1));
        if (r.p(70)) std::sort(c.begin(), c.end());
        else for (size_t k = c.size(); k > 1; --k) std::swap(c[k - 1], c[r.in(0, (int)k - 1)]);
        costs.push_back(o.zero_cost && r.p(5) ? 0 : r.in(1, mc));
    }
    return make_inst(m, costs, nr);
}
inline bool same(Instance const& a, Instance const& b) {
    return a.cols.idxs == b.cols.idxs && a.cols.begs == b.cols.begs && a.rows == b.rows && a.costs == b.costs;
}
inline void check_rows(Instance const& in, std::string const& what) {
    Mat m = cols_of(in);
    check(in.cols.begs.size() >= 1 && in.cols.begs[0] == 0, what + ": columns do not start at 0");
    check(in.costs.size() == m.size(), what + ": number of costs differs from the number of columns");
    for (size_t j = 0; j < m.size(); ++j) for (int i : m[j])
        check(i >= 0 && (size_t)i < in.rows.size(), what + ": row index out of range");
    for (size_t i = 0; i < in.rows.size(); ++i) {
        std::multiset<int> a(in.rows[i].begin(), in.rows[i].end()), b;
        for (size_t j = 0; j < m.size(); ++j) for (int k : m[j]) if (k == (int)i) b.insert((int)j);
        check(a == b, what + ": row " + std::to_string(i) + " does not list the columns covering it");
    }
}
inline bool is_cover(Instance const& in, std::vector<cidx_t> const& s) {
    Mat m = cols_of(in);
    std::vector<int> c(in.rows.size(), 0);
    for (cidx_t j : s) { if (j < 0 || (size_t)j >= m.size()) return false; for (int i : m[j]) ++c[i]; }
    for (int x : c) if (!x) return false;
    return true;
}
inline double cost_of(Instance const& in, std::vector<cidx_t> const& s) {
    double t = 0;
    for (cidx_t j : s) t += in.costs[j];
    return t;
}
// optimum by dynamic programming over row subsets (at most 14 rows)
inline double optimum(Instance const& in) {
    int n = (int)in.rows.size();
    std::vector<double> best(1u << n, 1e30);
    best[0] = 0;
    Mat m = cols_of(in);
    std::vector<unsigned> mk;
    for (auto& c : m) { unsigned x = 0; for (int i : c) x |= 1u << i; mk.push_back(x); }
    for (unsigned s = 0; s < (1u << n); ++s) if (best[s] < 1e29)
        for (size_t j = 0; j < mk.size(); ++j) best[s | mk[j]] = std::min(best[s | mk[j]], best[s] + (double)in.costs[j]);
    return best[(1u << n) - 1];
}
inline void dirty(Rnd& r, std::vector<cidx_t>& v) { v.clear(); int n = r.in(0, 6); for (int k = 0; k < n; ++k) v.push_back(r.in(0, 9)); }
inline void check_solution(Instance const& in, std::vector<cidx_t> const& s, double cost, std::string const& what) {
    std::set<cidx_t> d(s.begin(), s.end());
    check(d.size() == s.size(), what + ": repeated column " + show(s));
    for (cidx_t j : s) check(j >= 0 && (size_t)j < in.cols.size(), what + ": column index out of range " + show(s));
    check(is_cover(in, s), what + ": not a cover " + show(s));
    check(std::fabs(cost_of(in, s) - cost) < 1e-3 * (1 + std::fabs(cost)), what + ": cost " + std::to_string(cost) + " but the columns cost " + std::to_string(cost_of(in, s)) + " " + show(s));
}
}  // namespace vf
#endif
