#define NDEBUG
// Command lines against a reference reading of the documented options.
#include "inst.hpp"
#include "core/CliArgs.hpp"
#include <fcntl.h>
using namespace vf;
static int keep_, nul_;
struct Want {
    std::string inst, sol, init, parser = "RAIL";
    uint64_t seed = 0, verbose = 4, heur = 250;
    double tl = std::numeric_limits<double>::infinity();
    float eps = 0.999f, beta = 1.0f, absx = 1.0f, relx = 0.001f;
    bool unit = false;
};
static std::string path(Rnd& r) {
    static const char* dirs[] = {"", "", "/", "a/", "../x.y/", "./", "d.e/f/", "C:\\t\\", "a\\b.c\\", "/tmp/long/dir.with.dots/"};
    static const char* base[] = {"rail507", "scp41.txt", "a.b.c", "x", "inst.v2.scp", "name.", "X-n536-k96_z95480", "q.mps", "r s.txt"};
    return std::string(dirs[r.in(0, 9)]) + base[r.in(0, 8)];
}
static std::string sol_name(std::string p) {
    size_t k = p.find_last_of("/\\");
    if (k != std::string::npos) p = p.substr(k + 1);
    k = p.find_last_of('.');
    if (k != std::string::npos) p = p.substr(0, k);
    return p + ".sol";
}
static std::string f2s(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static void one(Rnd& r, int size) {
    static const char* fl[][2] = {{"-i", "--inst"}, {"-p", "--parser"}, {"-o", "--out-sol"}, {"-w", "--init-sol"}, {"-s", "--seed"}, {"-t", "--timelimit"}, {"-v", "--verbose"},
                                  {"-e", "--epsilon"}, {"-g", "--heur-iters"}, {"-b", "--beta"}, {"-a", "--abs-subg-exit"}, {"-r", "--rel-subg-exit"}, {"-u", "--unit-costs"}, {"-h", "--help"}};
    static const char* ps[] = {"RAIL", "SCP", "CVRP", "MPS", "other"};
    static const char* unk[] = {"-x", "--unknown", "foo", "-I", "--ins", "i", "-", "--", "-ii", "--seedx", "-U", ""};
    Want w;
    std::vector<std::string> a(1, r.p(90) ? "cft" : "-u");
    int n = r.in(0, 3 + size);
    bool missing_last = false;
    for (int k = 0; k < n; ++k) {
        int o = k == 0 && r.p(80) ? 0 : r.in(0, 15);
        if (o == 13 && r.p(80)) o = 0;
        std::string v;
        if (o >= 14) { a.push_back(unk[r.in(0, 11)]); continue; }
        a.push_back(fl[o][r.in(0, 1)]);
        if (o == 12) { w.unit = true; continue; }
        if (o == 13) continue;
        if (k + 1 == n && r.p(6)) { missing_last = true; break; }       // option without a value at the end: ignored
        switch (o) {
        case 0: w.inst = v = path(r); break;
        case 1: w.parser = v = ps[r.in(0, 4)]; break;
        case 2: w.sol = v = path(r); break;
        case 3: w.init = v = r.p(20) ? "-u" : path(r); break;
        case 4: w.seed = r.p(20) ? ~0ull : r.p(50) ? r.next() : (uint64_t)r.in(0, 1000); v = std::to_string(w.seed); break;
        case 5: w.tl = r.in(0, 10000) * 0.25; v = f2s(w.tl); break;
        case 6: w.verbose = (uint64_t)r.in(0, 5); v = std::to_string(w.verbose); break;
        case 7: w.eps = r.in(0, 64) * 0.03125f; v = f2s(w.eps); break;
        case 8: w.heur = (uint64_t)r.in(0, 5000); v = std::to_string(w.heur); break;
        case 9: w.beta = r.in(-8, 64) * 0.125f; v = f2s(w.beta); break;
        case 10: w.absx = r.in(-8, 64) * 0.125f; v = f2s(w.absx); break;
        case 11: w.relx = r.in(-8, 64) * 0.0078125f; v = f2s(w.relx); break;
        }
        a.push_back(v);
    }
    (void)missing_last;
    std::vector<char const*> argv;
    for (auto const& s : a) { argv.push_back(s.c_str()); cur() << "'" << s << "' "; }
    cur() << "\n";
    argv.push_back(nullptr);
    bool thrown = false;
    Environment e;
    fflush(stdout);
    dup2(nul_, 1);
    try { e = parse_cli_args((int)a.size(), argv.data()); } catch (std::exception const& x) { thrown = true; }
    fflush(stdout);
    dup2(keep_, 1);
    check(thrown == w.inst.empty(), thrown ? "an error although an instance path is given" : "no error although no instance path is given");
    if (thrown) return;
    if (w.sol.empty()) w.sol = sol_name(w.inst);
    check(e.inst_path == w.inst, "instance path is '" + e.inst_path + "', expected '" + w.inst + "'");
    check(e.sol_path == w.sol, "solution path is '" + e.sol_path + "', expected '" + w.sol + "'");
    check(e.initsol_path == w.init, "initial solution path is '" + e.initsol_path + "'");
    check(e.parser == w.parser, "parser is '" + e.parser + "'");
    check(e.seed == w.seed, "seed is " + std::to_string(e.seed) + ", expected " + std::to_string(w.seed));
    { prng_t g(w.seed); prng_t h = e.rnd; for (int k = 0; k < 3; ++k) check(g() == h(), "the generator is not the one of the seed"); }
    check(e.time_limit == w.tl, "time limit is " + std::to_string(e.time_limit));
    check(e.verbose == w.verbose, "verbosity is " + std::to_string(e.verbose));
    check(e.epsilon == w.eps, "epsilon is " + std::to_string(e.epsilon));
    check(e.heur_iters == w.heur, "heuristic iterations is " + std::to_string(e.heur_iters));
    check(e.beta == w.beta, "beta is " + std::to_string(e.beta));
    check(e.abs_subgrad_exit == w.absx, "absolute exit is " + std::to_string(e.abs_subgrad_exit));
    check(e.rel_subgrad_exit == w.relx, "relative exit is " + std::to_string(e.rel_subgrad_exit));
    check(e.use_unit_costs == w.unit, "unit costs is " + std::to_string(e.use_unit_costs));
    Environment d;
    check(e.alpha == d.alpha && e.min_fixing == d.min_fixing && d.alpha == 1.1f && d.min_fixing == 0.3f, "a setting without an option changed");
}
int main(int c, char** v) {
    keep_ = dup(1);      // what the parser prints is sent away
    nul_ = open("/dev/null", O_WRONLY);
    return drive(c, v, one, 10);
}
