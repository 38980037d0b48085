// The generic helpers against straightforward reference computations.
#include "inst.hpp"
#include "utils/sort.hpp"
#include "utils/utility.hpp"
#include "utils/Span.hpp"
using namespace vf;
template <typename T> static void seq(Rnd& r, int size, T scale) {
    std::vector<T> v;
    int n = r.in(0, 2 * size), rng = r.p(50) ? 2 : r.p(50) ? 6 : 1000;
    for (int i = 0; i < n; ++i) v.push_back((T)(r.in(-rng, rng) * scale));
    int t = r.in(-rng, rng);
    int md = r.in(1, 4), rm = r.in(0, 3);
    auto pred = [&](T x) { return ((long long)(x / scale) % md + md) % md == rm || x == (T)(t * scale); };
    auto key = [&](T x) { T d = x - (T)(t * scale); return d < 0 ? -d : d; };
    cur() << "values " << show(v) << " condition: quotient by " << scale << " is " << rm << " mod " << md << " or value is " << t * scale << "\n";
    std::vector<T> old = v;
    bool wany = false, wall = true;
    for (T x : v) { wany = wany || pred(x); wall = wall && pred(x); }
    check(cft::any(v, pred) == wany, std::string("any answers ") + (wany ? "false" : "true"));
    check(cft::all(v, pred) == wall, std::string("all answers ") + (wall ? "false" : "true"));
    auto sp = make_span(v.begin(), v.end());
    check(cft::any(sp, pred) == wany && cft::all(sp, pred) == wall, "any/all on a span");
    // stops at the first answer, asks each element at most once in order
    { size_t calls = 0; cft::any(v, [&](T x) { check(x == v[calls], "any asks out of order"); ++calls; return pred(x); }); }
    check(v == old, "any/all changed the range");
    if (n) {
        T m = cft::range_min(v), mk = cft::range_min(v, key);
        check(std::count(v.begin(), v.end(), m) && std::count(v.begin(), v.end(), mk), "range_min is not an element");
        for (T x : v) { check(!(x < m), "range_min " + std::to_string(m) + " but " + std::to_string(x) + " is smaller"); check(!(key(x) < key(mk)), "range_min by key " + std::to_string(mk) + " but " + std::to_string(x) + " has a smaller key"); }
        check(v == old, "range_min changed the range");
    }
    {
        std::vector<T> w = v, want;
        for (T x : v) if (!pred(x)) want.push_back(x);
        cft::remove_if(w, pred);
        check(w == want, "remove_if leaves " + show(w) + ", expected " + show(want));
    }
    {
        std::vector<T> w = v, ref = v, a, b;
        cft::sort(w);
        std::sort(ref.begin(), ref.end());
        check(w == ref, "sort gives " + show(w) + ", expected " + show(ref));
        w = v;
        cft::sort(w, key);
        for (size_t i = 1; i < w.size(); ++i) check(!(key(w[i]) < key(w[i - 1])), "sort by key: out of order " + show(w));
        a = w; std::sort(a.begin(), a.end());
        check(a == ref, "sort by key lost or invented elements " + show(w));
        if (n) {
            size_t k = (size_t)r.in(0, n - 1);
            w = v;
            cft::nth_element(w, k, key);
            b = w; std::sort(b.begin(), b.end());
            check(b == ref, "nth_element lost or invented elements " + show(w));
            for (size_t i = 0; i < w.size(); ++i) check(i < k ? !(key(w[k]) < key(w[i])) : !(key(w[i]) < key(w[k])), "nth_element: wrong side of position " + std::to_string(k) + " " + show(w));
            w = v;
            cft::nth_element(w, k);
            check(w[k] == ref[k], "nth_element: wrong element at position " + std::to_string(k));
        }
    }
}
template <typename T> static void scalars(Rnd& r, T sc) {
    T v[6];
    for (auto& x : v) x = (T)(r.in(0, 20) * sc);
    if (r.p(30)) v[r.in(0, 5)] = std::numeric_limits<T>::max();
    if (r.p(30) && std::numeric_limits<T>::is_signed) for (auto& x : v) if (r.p(50)) x = -x;
    cur() << "arguments " << show(std::vector<T>(v, v + 6)) << "\n";
    check(cft::min(v[0], v[1]) == std::min(v[0], v[1]), "min of two");
    check(cft::max(v[0], v[1]) == std::max(v[0], v[1]), "max of two");
    check(cft::min(v[0], v[1], v[2]) == *std::min_element(v, v + 3), "min of three");
    check(cft::max(v[0], v[1], v[2]) == *std::max_element(v, v + 3), "max of three");
    check(cft::min(v[0], v[1], v[2], v[3], v[4], v[5]) == *std::min_element(v, v + 6), "min of six");
    check(cft::max(v[0], v[1], v[2], v[3], v[4], v[5]) == *std::max_element(v, v + 6), "max of six");
    check(cft::min(v[0], v[1], v[2], v[3]) == *std::min_element(v, v + 4), "min of four");
    check(cft::max(v[0], v[1], v[2], v[3]) == *std::max_element(v, v + 4), "max of four");
    T lo = std::min(v[1], v[2]), hi = std::max(v[1], v[2]);
    check(cft::clamp(v[0], lo, hi) == (v[0] < lo ? lo : hi < v[0] ? hi : v[0]), "clamp");
    check(cft::abs(v[0]) == (v[0] < T{} ? (T)-v[0] : v[0]), "abs");
}
static void mixed(Rnd& r) {
    int32_t a = r.in(-100, 100); int16_t b = (int16_t)r.in(-100, 100); int64_t c = r.in(-100, 100);
    uint64_t ua = (uint64_t)r.in(0, 100); uint32_t ub = (uint32_t)r.in(0, 100);
    cur() << "arguments " << a << " " << b << " " << c << " " << ua << " " << ub << "\n";
    check(cft::min(a, b) == std::min<int64_t>(a, b) && cft::max(a, b) == std::max<int64_t>(a, b), "mixed min/max of two");
    check(cft::min(a, b, c) == std::min<int64_t>(std::min<int64_t>(a, b), c), "mixed min of three");
    check(cft::max(a, b, c) == std::max<int64_t>(std::max<int64_t>(a, b), c), "mixed max of three");
    check(cft::min(ua, ub) == std::min<uint64_t>(ua, ub) && cft::max(ua, ub) == std::max<uint64_t>(ua, ub), "mixed unsigned min/max");
    check(cft::min(ua, as_cidx(ub)) == std::min<uint64_t>(ua, ub), "min of a size and an index");
    check(as_cidx(ua) == (cidx_t)ua && as_ridx(ua) == (ridx_t)ua && as_real(ua) == (real_t)ua, "casts");
    check(checked_cast<size_t>(as_cidx(ub)) == ub, "cast");
}
static void one(Rnd& r, int size) {
    switch (r.in(0, 7)) {
    case 0: return seq<int>(r, size, 1);
    case 1: return seq<int16_t>(r, size, 1);
    case 2: return seq<float>(r, size, 0.5f);
    case 3: return seq<double>(r, size, 0.25);
    case 4: return scalars<int>(r, 1);
    case 5: return scalars<float>(r, 0.5f);
    case 6: scalars<uint64_t>(r, 1); return scalars<int16_t>(r, 1);
    default: return mixed(r);
    }
}
int main(int c, char** v) { return drive(c, v, one, 12); }
