#define NDEBUG
// Instance files: well-formed ones are read as written, damaged ones give an error or a well-formed instance.
#include "inst.hpp"
#include "core/parsing.hpp"
#include <fstream>
using namespace vf;
static std::string num(double c) { std::ostringstream o; o << c; return o.str(); }
static std::string sp(Rnd& r) { return r.p(85) ? " " : r.p(50) ? "  " : "\t "; }
static std::string file(Rnd& r, Instance const& in, int kind, std::vector<int> const& init) {
    Mat m = cols_of(in);
    std::ostringstream o;
    size_t nr = in.rows.size(), nc = m.size();
    std::string eol = r.p(90) ? "\n" : " \r\n";
    if (kind == 3) {
        o << "NAME x" << eol << "ROWS" << eol << " N obj" << eol;
        for (size_t i = 0; i < nr; ++i) o << " " << (i % 3 ? "G" : i % 2 ? "E" : "L") << sp(r) << "r" << i << eol;
        o << "COLUMNS" << eol;
        if (r.p(30)) o << " MARK0 'MARKER' 'INTORG'" << eol;
        for (size_t j = 0; j < nc; ++j) {
            o << " c" << j << sp(r) << "obj" << sp(r) << num(in.costs[j]);
            for (size_t k = 0; k < m[j].size(); ++k) {
                if (k % 2) o << eol << " c" << j;
                o << sp(r) << "r" << m[j][k] << sp(r) << "1";
            }
            o << eol;
        }
        if (r.p(30)) o << " MARK1 'MARKER' 'INTEND'" << eol;
        o << "RHS" << eol;
        for (size_t i = 0; i < nr; ++i) o << " rhs r" << i << " 1" << eol;
        o << "BOUNDS" << eol << "ENDATA" << (r.p(80) ? eol : "");
        return o.str();
    }
    o << nr << sp(r) << nc << eol;
    if (kind == 0) {
        for (size_t j = 0; j < nc; ++j) {
            o << num(in.costs[j]) << sp(r) << m[j].size();
            for (int i : m[j]) o << sp(r) << i + 1;
            o << (j + 1 == nc && r.p(20) ? "" : eol);
        }
    } else if (kind == 1) {
        int w = r.in(1, 12), k = 0;
        for (size_t j = 0; j < nc; ++j) o << num(in.costs[j]) << (++k % w == 0 || j + 1 == nc ? eol : sp(r));
        for (size_t i = 0; i < nr; ++i) {
            o << in.rows[i].size() << eol;
            for (size_t t = 0; t < in.rows[i].size(); ++t) o << in.rows[i][t] + 1 << ((t + 1) % w == 0 || t + 1 == in.rows[i].size() ? eol : sp(r));
        }
    } else {
        for (size_t j = 0; j < nc; ++j) {
            o << num(in.costs[j]) << sp(r) << num(in.costs[j] + r.in(0, 2));
            for (int i : m[j]) o << sp(r) << i;
            o << eol;
        }
        for (size_t k = 0; k < init.size(); ++k) o << (k ? " " : "") << init[k];
        o << (r.p(70) ? eol : "");
    }
    return o.str();
}
static std::string damage(Rnd& r, std::string s) {
    static char const* tok[] = {"0", "-1", "1", "99999", "-99999", "2147483647", "2147483648", "-2147483648", "99999999999999999999", "x", "", "1.5", "1e3", "nan", "inf",
                                "-", "+", "0x7", "COLUMNS", "ROWS", "RHS", "N", "G", "32767", "32768", "65536", "RHS\n", "\n", "\nN\n", "\nG\n", "\nCOLUMNS\n", "1e40", "-0", "00", "BOUNDS"};
    int n = r.in(1, 3);
    while (n--) {
        int at = s.empty() ? 0 : r.in(0, (int)s.size() - 1);
        switch (r.in(0, 6)) {
        case 0: s = s.substr(0, (size_t)at); break;
        case 1: case 2: case 3: {          // replace a token
            size_t b = s.find_first_not_of(" \t\r\n", (size_t)at);
            if (b == std::string::npos) break;
            while (b > 0 && !isspace((unsigned char)s[b - 1])) --b;
            size_t e = s.find_first_of(" \t\r\n", b);
            if (e == std::string::npos) e = s.size();
            s = s.substr(0, b) + tok[r.in(0, (int)(sizeof tok / sizeof *tok) - 1)] + s.substr(e);
            break;
        }
        case 4: if (!s.empty()) s[(size_t)at] = (char)r.in(r.p(80) ? 32 : 0, 126); break;
        case 5: {                                  // drop or repeat a line
            size_t b = s.rfind('\n', (size_t)at), e = s.find('\n', (size_t)at);
            b = b == std::string::npos ? 0 : b + 1;
            e = e == std::string::npos ? s.size() : e + 1;
            if (b >= e) break;
            s = r.p(50) ? s.substr(0, b) + s.substr(e) : s.substr(0, e) + s.substr(b);
            break;
        }
        default: s.insert((size_t)at, r.p(50) ? " " : r.p(50) ? "\n" : tok[r.in(0, (int)(sizeof tok / sizeof *tok) - 1)]);
        }
    }
    return s;
}
static Instance parse(int kind, std::string const& path, Solution& init) {
    switch (kind) {
    case 0: return parse_rail_instance(path);
    case 1: return parse_scp_instance(path);
    case 2: { auto f = parse_cvrp_instance(path); init = f.init_sol; return f.inst; }
    default: return parse_mps_instance(path);
    }
}
static void well_formed(Instance const& in) {
    Mat dummy;
    check(!in.cols.begs.empty() && in.cols.begs.front() == 0 && in.cols.begs.back() == in.cols.idxs.size(), "column bounds do not span the index list");
    for (size_t j = 0; j + 1 < in.cols.begs.size(); ++j) check(in.cols.begs[j] <= in.cols.begs[j + 1], "column bounds decrease");
    for (ridx_t i : in.cols.idxs) check(i >= 0 && (size_t)i < in.rows.size(), "row index " + std::to_string(i) + " of " + std::to_string(in.rows.size()));
    check_rows(in, "instance read");
    for (real_t c : in.costs) check(std::isfinite(c), "a cost is not finite");
}
static void one(Rnd& r, int size) {
    static const char* names[] = {"RAIL", "SCP", "CVRP", "MPS"};
    int kind = r.in(0, 3);
    GenOpt o;
    o.empty_cols = false;
    Instance in = gen_inst(r, size, o);
    if (kind == 3) {       // columns in file order must differ by name: always so
    }
    if (r.p(40)) for (auto& c : in.costs) c += r.in(0, 3) * 0.25f;
    if (kind == 1) {       // the SCP format lists rows: column entries come out in row order
        Mat m = cols_of(in);
        for (auto& c : m) std::sort(c.begin(), c.end());
        std::vector<real_t> cs = in.costs;
        in = make_inst(m, std::vector<int>(m.size(), 1), (int)in.rows.size());
        in.costs = cs;
    }
    std::vector<int> init;
    if (r.p(60)) for (size_t j = 0; j < in.cols.size(); ++j) if (r.p(50)) init.push_back((int)j);
    std::string s = file(r, in, kind, init);
    bool bad = r.p(75);
    if (bad) s = r.p(3) ? std::string((size_t)r.in(0, 200), (char)r.in(0, 255)) : damage(r, s);
    int pk = bad && r.p(10) ? r.in(0, 3) : kind;
    cur() << (bad ? "damaged " : "") << names[kind] << " file read as " << names[pk] << ":\n" << s << "\n[end of file]\n";
    std::string path = "f.txt";
    { std::ofstream f(path, std::ios::binary); f << s; }
    Solution sol;
    sol.cost = 0;
    Instance got;
    bool read = false;
    try {
        if (r.p(25)) {
            Environment env;
            env.verbose = 0; env.inst_path = path; env.parser = names[pk]; env.use_unit_costs = r.p(50);
            cur() << "through parse_inst_and_initsol" << (env.use_unit_costs ? ", unit costs" : "") << "\n";
            auto f = parse_inst_and_initsol(env);
            got = f.inst; sol = f.init_sol; read = true;
            if (env.use_unit_costs) {
                for (real_t c : got.costs) check(c == 1, "unit costs asked for");
                if (!bad) { for (auto& c : in.costs) c = 1; }
            }
        } else { got = parse(pk, path, sol); read = true; }
    } catch (std::exception const& e) {
        check(bad, std::string("a well-formed file is rejected: ") + e.what());
    }
    if (!read) return;
    well_formed(got);
    if (pk == 2) for (cidx_t j : sol.idxs) check(j >= 0 && (size_t)j < got.cols.size(), "column " + std::to_string(j) + " of the given solution does not exist");
    if (bad) return;
    check(got.rows.size() == in.rows.size() && got.cols.size() == in.cols.size(), "wrong number of rows or columns");
    check(got.cols.begs == in.cols.begs && got.cols.idxs == in.cols.idxs, "columns differ from the file");
    for (size_t j = 0; j < in.costs.size(); ++j) check(std::fabs(got.costs[j] - in.costs[j]) < 1e-4, "cost of column " + std::to_string(j) + " is " + std::to_string(got.costs[j]));
    if (kind == 2) {
        check(std::vector<int>(sol.idxs.begin(), sol.idxs.end()) == init, "the given solution differs from the file");
        check(std::fabs(sol.cost - cost_of(got, sol.idxs)) < 1e-3, "cost of the given solution");
    }
}
int main(int c, char** v) { return drive(c, v, one, 8); }
