#include "inst.hpp"
using namespace vf;
static void one(Rnd& r, int size) {
    GenOpt o; o.empty_cols = true;
    Instance a = gen_inst(r, size, o);
    describe(a);
    std::vector<std::vector<cidx_t>> rows(r.in(0, 8));
    for (auto& x : rows) dirty(r, x);
    fill_rows_from_cols(a.cols, rsize(a.rows), rows);
    check(rows.size() == a.rows.size(), "number of rows");
    for (size_t i = 0; i < rows.size(); ++i)
        check(rows[i] == a.rows[i], "row " + std::to_string(i) + " is " + show(rows[i]) + " expected " + show(a.rows[i]));
}
int main(int c, char** v) { return drive(c, v, one); }
