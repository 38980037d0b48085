#define NDEBUG
// Solutions written to a file and read back.
#include "inst.hpp"
#include "core/parsing.hpp"
#include <fstream>
using namespace vf;
static void one(Rnd& r, int size) {
    Solution s, t;
    int n = r.p(10) ? 0 : r.p(3) ? r.in(1000, 20000) : r.in(0, 4 * size);
    for (int k = 0; k < n; ++k) s.idxs.push_back(r.p(10) ? 2147483647 - r.in(0, 5) : r.p(30) ? r.in(0, 9) : r.p(50) ? r.in(0, 1000) : r.in(0, 2147483647));
    switch (r.in(0, 7)) {
    case 0: s.cost = 0; break;
    case 1: s.cost = (float)r.in(0, 100); break;
    case 2: s.cost = r.in(0, 1000000) * 0.01f; break;
    case 3: s.cost = 16777216.f + 2 * r.in(0, 1000); break;
    case 4: s.cost = std::numeric_limits<float>::max(); break;
    case 5: s.cost = -r.in(0, 1000) * 0.1f; break;
    case 6: s.cost = (float)r.in(1, 1 << 24) * std::ldexp(1.0f, r.in(-60, 60)); break;
    default: { uint32_t b; do { b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); s.cost = f; } while (!std::isfinite(s.cost)); }
    }
    cur() << "cost " << fmt::format("{}", s.cost) << " columns " << (n < 200 ? show(s.idxs) : std::to_string(n)) << "\n";
    std::string p = "s.txt";
    if (r.p(30)) { std::ofstream f(p); f << "an older and longer file\n" << std::string((size_t)r.in(0, 3000), '7'); }
    write_solution(p, s);
    if (r.p(50)) t = parse_solution(p);
    else {            // the path used by the solver: an initial solution beside an instance
        std::string ip = "inst.txt";
        { std::ofstream f(ip); f << "1 1\n1 1 1\n"; }
        Environment env;
        env.verbose = 0; env.inst_path = ip; env.initsol_path = p; env.parser = "RAIL";
        t = parse_inst_and_initsol(env).init_sol;
    }
    check(t.idxs == s.idxs, "columns read back: " + (t.idxs.size() < 200 ? show(t.idxs) : std::to_string(t.idxs.size()) + " columns"));
    check(t.cost == s.cost, "cost read back: " + fmt::format("{}", t.cost));
}
int main(int c, char** v) { return drive(c, v, one, 12); }
