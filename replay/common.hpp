// Support for the concrete search of failing inputs: generators, the description of the current input, reporting.
#ifndef VF_REPLAY_COMMON
#define VF_REPLAY_COMMON
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

namespace vf {
struct Rnd {
    uint64_t s;
    explicit Rnd(uint64_t seed) : s(seed) {        // scrambled: neighbouring seeds must not give shifted sequences
        s = (s ^ (s >> 31) ^ 0x2545F4914F6CDD1Dull) * 0xD6E8FEB86659FD93ull;
        s = (s ^ (s >> 32)) * 0xD6E8FEB86659FD93ull;
        s ^= s >> 32;
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int lo, int hi) { return (int)(lo + (int64_t)(next() % (uint64_t)((int64_t)hi - lo + 1))); }
    bool p(int pct) { return in(0, 99) < pct; }
};

static std::ostringstream* cur_;       // description of the current input
inline std::ostringstream& cur() { if (!cur_) cur_ = new std::ostringstream; return *cur_; }
inline void fresh() { cur().str(""); }
static unsigned long long runs_ = 0;
[[noreturn]] inline void fail(std::string const& m) {
    printf("INPUT\n%s\nFAIL %s\n", cur().str().c_str(), m.c_str());
    fflush(stdout);
    _exit(3);
}
inline void check(bool c, std::string const& m) { if (!c) fail(m); }
inline void on_signal(int s) {
    static char const* nm = "";
    nm = s == SIGALRM ? "no answer within the time limit" : s == SIGABRT ? "abort (assertion)" : "crash";
    printf("INPUT\n%s\nFAIL %s\n", cur().str().c_str(), nm);
    fflush(stdout);
    _exit(4);
}
inline void on_terminate() {
    std::string m = "exception";
    try { throw; } catch (std::exception const& e) { m = std::string("unexpected exception: ") + e.what(); } catch (...) {}
    fail(m);
}
template <typename V> std::string show(V const& v) {
    std::ostringstream o;
    o << "[";
    size_t k = 0;
    for (auto const& x : v) { if (k++) o << " "; o << +x; }
    o << "]";
    return o.str();
}
}  // namespace vf
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace vf {
inline void on_death() { printf("INPUT\n%s\nFAIL memory error or undefined behaviour (see above)\n", cur().str().c_str()); fflush(stdout); }

// runs one(rnd, size) until the time is used; args: seed seconds
template <typename F> int drive(int argc, char** argv, F one, int max_size = 12) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    double secs = argc > 2 ? atof(argv[2]) : 10;
    signal(SIGALRM, on_signal); signal(SIGABRT, on_signal);
    std::set_terminate(on_terminate);
    __sanitizer_set_death_callback(on_death);
    time_t end = time(0) + (time_t)secs + 1;
    Rnd top(seed);
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    while (time(0) < end) {
        for (int k = 0; k < 16; ++k) {
            uint64_t s1 = top.next();
            Rnd r(s1);
            fresh();
            cur() << "seed " << s1 << "\n";
            ++runs_;
            alarm(20);
            int size = 1 + (int)((runs_ / 8) % (unsigned)max_size);
            one(r, size);
        }
    }
    printf("RUNS %llu\n", runs_);
    return 0;
}
}  // namespace vf
#endif
