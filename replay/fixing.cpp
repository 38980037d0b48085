#include "inst.hpp"
#include "fixing/FixingData.hpp"
using namespace vf;
static void one(Rnd& r, int size) {
    GenOpt o; o.empty_cols = false;
    Instance orig = gen_inst(r, size, o), in = orig;
    describe(orig);
    FixingData fx;
    dirty(r, fx.fixed_cols); dirty(r, fx.curr2orig.col_map); fx.fixed_cost = 17;
    make_identity_fixing_data(csize(in.cols), rsize(in.rows), fx);
    IdxsMaps maps; dirty(r, maps.col_map);
    std::vector<int> fixed_all;
    Mat oc = cols_of(orig);
    for (int step = 0; step < 4 && !in.rows.empty(); ++step) {
        std::vector<cidx_t> fix;
        int nc = (int)in.cols.size(), want = r.in(1, std::max(1, std::min(nc, r.in(1, 4))));
        while ((int)fix.size() < want) { cidx_t j = r.in(0, nc - 1); if (!std::count(fix.begin(), fix.end(), j)) fix.push_back(j); }
        cur() << "fix " << show(fix) << "\n";
        Instance bef = in; FixingData fb = fx;
        fix_columns_and_compute_maps(fix, in, fx, maps);
        // expected, straight from the original instance
        std::vector<int> exp_fixed(fb.fixed_cols.begin(), fb.fixed_cols.end());
        double ec = fb.fixed_cost;
        for (cidx_t j : fix) { exp_fixed.push_back(fb.curr2orig.col_map[j]); ec += bef.costs[j]; }
        check(std::vector<int>(fx.fixed_cols.begin(), fx.fixed_cols.end()) == exp_fixed, "fixed columns are " + show(fx.fixed_cols) + " expected " + show(exp_fixed));
        check(std::fabs(fx.fixed_cost - ec) < 1e-3, "fixed cost " + std::to_string(fx.fixed_cost) + " expected " + std::to_string(ec));
        std::vector<char> gone(orig.rows.size(), 0);
        for (int j : exp_fixed) for (int i : oc[j]) gone[i] = 1;
        std::vector<int> er, nidx(orig.rows.size(), -1);
        for (size_t i = 0; i < orig.rows.size(); ++i) if (!gone[i]) { nidx[i] = (int)er.size(); er.push_back((int)i); }
        std::vector<int> ecols; Mat em;
        std::vector<int> before(fb.curr2orig.col_map.begin(), fb.curr2orig.col_map.end());
        if (!er.empty()) for (int j : before) {
            if (std::count(exp_fixed.begin(), exp_fixed.end(), j)) continue;
            std::vector<int> c;
            for (int i : oc[j]) if (!gone[i]) c.push_back(nidx[i]);
            if (!c.empty()) { ecols.push_back(j); em.push_back(c); }
        }
        check(std::vector<int>(fx.curr2orig.row_map.begin(), fx.curr2orig.row_map.end()) == er, "row map " + show(fx.curr2orig.row_map) + " expected " + show(er));
        check(std::vector<int>(fx.curr2orig.col_map.begin(), fx.curr2orig.col_map.end()) == ecols, "column map " + show(fx.curr2orig.col_map) + " expected " + show(ecols));
        check(in.rows.size() == er.size(), "number of rows left");
        Mat got = cols_of(in);
        check(got.size() == em.size(), "number of columns left");
        for (size_t j = 0; j < em.size(); ++j) {
            std::multiset<int> a(got[j].begin(), got[j].end()), b(em[j].begin(), em[j].end());
            check(a == b, "column " + std::to_string(j) + " has rows " + show(got[j]) + " expected " + show(em[j]));
            check(in.costs[j] == orig.costs[ecols[j]], "cost of column " + std::to_string(j));
        }
        check_rows(in, "instance left");
    }
}
int main(int c, char** v) { return drive(c, v, one); }
