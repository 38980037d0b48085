// The random generators against the published reference algorithms, and the ranges of the draws.
#include "inst.hpp"
#include "utils/random.hpp"
#include "utils/xoshiro_prng.hpp"
using namespace vf;
static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
template <typename T> static T rl(T x, int k) { return (T)((x << k) | (x >> ((int)(8 * sizeof(T)) - k))); }
template <typename T> struct Ref {       // prng.di.unimi.it: xoshiro256+, xoshiro256++, xoshiro128+, xoshiro128++
    T s[4];
    bool pp;
    Ref(uint64_t seed, bool pp_) : pp(pp_) { for (auto& x : s) x = (T)splitmix(seed); }
    T next() {
        const bool w = sizeof(T) == 8;
        T res = pp ? (T)(rl<T>((T)(s[0] + s[3]), w ? 23 : 7) + s[0]) : (T)(s[0] + s[3]);
        T t = (T)(s[1] << (w ? 17 : 9));
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t;
        s[3] = rl<T>(s[3], w ? 45 : 11);
        return res;
    }
};
static uint64_t a_seed(Rnd& r) {
    switch (r.in(0, 5)) {
    case 0: return 0; case 1: return ~0ull; case 2: return (uint64_t)r.in(0, 100); case 3: return 1ull << r.in(0, 63);
    default: return r.next();
    }
}
template <typename G, typename T> static void against(Rnd& r, int size, bool pp, char const* nm) {
    uint64_t s = a_seed(r);
    cur() << nm << " seed " << s << "\n";
    G g(s);
    Ref<T> ref(s, pp);
    for (int k = 0; k < 20 * size; ++k) {
        T a = g(), b = ref.next();
        check(a == b, "draw " + std::to_string(k) + " is " + std::to_string(a) + ", the reference gives " + std::to_string(b));
    }
}
template <typename T> struct Fixed {       // a generator whose draws are chosen
    typedef T result_type;
    T v;
    T operator()() { return v; }
};
template <typename F, typename T> static void canon(T v) {
    Fixed<T> g{v};
    cur() << "draw " << +v << " of " << 8 * sizeof(T) << " bits as a " << 8 * sizeof(F) << " bit real\n";
    F x = canonical_gen<F>(g);
    check(x >= 0 && x < 1, "canonical draw " + std::to_string(x) + " is not in [0,1)");
    long double e = (long double)v / (long double)std::numeric_limits<T>::max();
    check(std::fabs((double)(e - x)) < 1e-6, "canonical draw " + std::to_string(x) + ", expected " + std::to_string((double)e));
}
template <typename T> static T edge(Rnd& r) {
    switch (r.in(0, 4)) {
    case 0: return 0; case 1: return (T)~(T)0; case 2: return (T)((T)~(T)0 - (T)r.in(0, 2000)); case 3: return (T)r.in(0, 2000);
    default: return (T)r.next();
    }
}
static void draws(Rnd& r) {
    Fixed<uint32_t> a{edge<uint32_t>(r)};
    Fixed<uint64_t> b{edge<uint64_t>(r)};
    cur() << "draws " << a.v << " " << b.v << "\n";
    float lo = r.in(-100, 100) * 0.5f, hi = lo + r.in(0, 200) * 0.5f;
    double dlo = r.in(-100, 100) * 0.1, dhi = dlo + r.in(0, 200) * 0.1;
    float x = rnd_real(a, lo, hi); double y = rnd_real(b, dlo, dhi), z = rnd_real(a, dlo, dhi); float w = rnd_real(b, lo, hi);
    cur() << "bounds " << lo << " " << hi << " and " << dlo << " " << dhi << "\n";
    check(x >= lo && x <= hi && w >= lo && w <= hi, "real draw " + std::to_string(x) + " or " + std::to_string(w) + " out of its bounds");
    check(y >= dlo && y <= dhi && z >= dlo && z <= dhi, "real draw " + std::to_string(y) + " or " + std::to_string(z) + " out of its bounds");
    double e = dlo + (dhi - dlo) * ((double)b.v / 18446744073709551616.0);
    check(std::fabs(y - e) < 1e-6 * (1 + std::fabs(e)), "real draw " + std::to_string(y) + ", expected " + std::to_string(e));
    int il = r.in(-50, 50), ih = il + (r.p(30) ? 0 : r.in(0, 60));
    cur() << "integer bounds " << il << " " << ih << "\n";
    int p = roll_dice(a, il, ih), q = roll_dice(b, il, ih);
    check(p >= il && p <= ih && q >= il && q <= ih, "integer draw " + std::to_string(p) + " or " + std::to_string(q) + " out of its bounds");
    uint64_t ul = (uint64_t)r.in(0, 50), uh = ul + (uint64_t)r.in(0, 60), d = roll_dice(b, ul, uh);
    check(d >= ul && d <= uh, "integer draw out of its bounds");
    check(coin_flip(b, 1.0), "coin with probability one gives false");
}
static void reach(Rnd& r) {      // every value of a small range is drawn
    uint64_t s = r.next();
    int lo = r.in(-5, 5), n = r.in(1, 6);
    cur() << "seed " << s << " range " << lo << " to " << lo + n - 1 << "\n";
    prng_t g(s);
    Xoshiro256PP h(s);
    std::set<int> a, b;
    for (int k = 0; k < 400; ++k) { a.insert(roll_dice(g, lo, lo + n - 1)); b.insert(roll_dice(h, lo, lo + n - 1)); }
    check((int)a.size() == n && (int)b.size() == n, "some value of the range is never drawn");
    check(*a.begin() == lo && *a.rbegin() == lo + n - 1, "draw out of its bounds");
    int heads = 0; double sum = 0;
    double pr = r.in(1, 9) * 0.1;
    for (int k = 0; k < 2000; ++k) { heads += coin_flip(h, pr); sum += canonical_gen<double>(h); }
    check(std::fabs(heads / 2000.0 - pr) < 0.08, "coin with probability " + std::to_string(pr) + " shows heads " + std::to_string(heads) + " times of 2000");
    check(std::fabs(sum / 2000 - 0.5) < 0.06, "mean of the canonical draws " + std::to_string(sum / 2000));
}
static void one(Rnd& r, int size) {
    switch (r.in(0, 8)) {
    case 0: return against<Xoshiro256P, uint64_t>(r, size, false, "xoshiro256+");
    case 1: return against<Xoshiro256PP, uint64_t>(r, size, true, "xoshiro256++");
    case 2: return against<Xoshiro128P, uint32_t>(r, size, false, "xoshiro128+");
    case 3: return against<Xoshiro128PP, uint32_t>(r, size, true, "xoshiro128++");
    case 4: return canon<float, uint32_t>(edge<uint32_t>(r));
    case 5: canon<double, uint64_t>(edge<uint64_t>(r)); return canon<double, uint32_t>(edge<uint32_t>(r));
    case 6: return canon<float, uint64_t>(edge<uint64_t>(r));
    case 7: return r.p(5) ? reach(r) : draws(r);
    default:
        check(std::is_same<prng_picker<float>::type, Xoshiro128P>::value && std::is_same<prng_picker<double>::type, Xoshiro256P>::value
              && std::is_same<prng_picker<uint32_t>::type, Xoshiro128PP>::value && std::is_same<prng_picker<uint64_t>::type, Xoshiro256PP>::value, "generator chosen for a type");
        check(Xoshiro128P::min() == 0 && Xoshiro128P::max() == 0xffffffffu && Xoshiro256PP::min() == 0 && Xoshiro256PP::max() == ~0ull, "range of a generator");
        return draws(r);
    }
}
int main(int c, char** v) { return drive(c, v, one, 12); }
