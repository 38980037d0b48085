// The bounded sorted array against a reference list, for random sequences of insertions.
#include "inst.hpp"
#include "utils/SortedArray.hpp"
#include <memory>
using namespace vf;
template <size_t N, typename K> static void seq(Rnd& r, int size, std::vector<K> const& keys) {
    auto key = [&](int e) { return keys[(size_t)e]; };
    auto a = make_custom_key_sorted_array<int, N>(key);
    std::vector<int> ref;
    int nops = r.in(1, 4 + 4 * size);
    cur() << "capacity " << N << ", keys " << show(keys) << "\n";
    for (int o = 0; o < nops; ++o) {
        int e = r.in(0, (int)keys.size() - 1);
        if (r.p(2)) { a.clear(); ref.clear(); cur() << "clear\n"; }
        else if (ref.size() < N && r.p(30)) {
            cur() << "insert " << e << "\n";
            a.insert(e);
            auto it = ref.begin();
            while (it != ref.end() && !(keys[e] < keys[*it])) ++it;
            ref.insert(it, e);
        } else {
            cur() << "try_insert " << e << "\n";
            bool want = ref.size() < N || keys[e] < keys[ref.back()];
            if (want) {
                if (ref.size() == N) ref.pop_back();
                auto it = ref.begin();
                while (it != ref.end() && !(keys[e] < keys[*it])) ++it;
                ref.insert(it, e);
            }
            bool got = a.try_insert(e);
            check(got == want, std::string("try_insert answers ") + (got ? "stored" : "not stored"));
        }
        check(a.size() == ref.size(), "size " + std::to_string(a.size()) + ", expected " + std::to_string(ref.size()));
        std::vector<int> v(a.begin(), a.end());
        check(v == ref, "holds " + show(v) + ", expected " + show(ref));
        if (!ref.empty()) check(a.back() == ref.back() && a[0] == ref[0], "back or [] differs from the contents");
    }
}
template <typename K> static void any_cap(Rnd& r, int size, std::vector<K> const& keys) {
    switch (r.in(0, 6)) {
    case 0: return seq<1, K>(r, size, keys);
    case 1: return seq<2, K>(r, size, keys);
    case 2: return seq<3, K>(r, size, keys);
    case 3: return seq<4, K>(r, size, keys);
    case 4: case 5: return seq<5, K>(r, size, keys);
    default: return seq<9, K>(r, size, keys);
    }
}
struct Neg { int operator()(int x) const { return -x; } };
static void functor(Rnd& r, int size) {      // key given as a functor on the element itself; elements that own memory
    SortedArray<int, 4, Neg> a;
    std::vector<int> ref;
    for (int o = 0; o < 3 * size; ++o) {
        int e = r.in(-8, 8);
        cur() << "descending, try_insert " << e << "\n";
        bool want = ref.size() < 4 || -e < -ref.back();
        check(a.try_insert(e) == want, "try_insert answer");
        if (want) {
            if (ref.size() == 4) ref.pop_back();
            auto it = ref.begin();
            while (it != ref.end() && *it >= e) ++it;
            ref.insert(it, e);
        }
        std::vector<int> v(a.begin(), a.end());
        check(v == ref, "holds " + show(v) + ", expected " + show(ref));
    }
    auto s = make_custom_key_sorted_array<std::string, 3>([](std::string const& x) { return x.size(); });
    std::vector<std::string> sr;
    for (int o = 0; o < 2 * size; ++o) {
        std::string e((size_t)r.in(0, 40), (char)('a' + r.in(0, 3)));
        cur() << "strings by length, try_insert " << e << "\n";
        bool want = sr.size() < 3 || e.size() < sr.back().size();
        if (want) {
            if (sr.size() == 3) sr.pop_back();
            auto it = sr.begin();
            while (it != sr.end() && it->size() <= e.size()) ++it;
            sr.insert(it, e);
        }
        std::string c = e;
        bool got = r.p(50) ? s.try_insert(std::move(c)) : s.try_insert(e);
        check(got == want, "try_insert answer");
        check(std::vector<std::string>(s.begin(), s.end()) == sr, "contents differ");
    }
}
static void one(Rnd& r, int size) {
    if (r.p(10)) return functor(r, size);
    int n = r.in(1, 3 + 3 * size), rng = r.p(50) ? 3 : r.p(50) ? 10 : 1000;
    if (r.p(50)) {
        std::vector<float> k;
        for (int i = 0; i < n; ++i) k.push_back((float)r.in(-rng, rng) * 0.5f);
        if (r.p(5)) k[0] = std::numeric_limits<float>::infinity();
        any_cap<float>(r, size, k);
    } else {
        std::vector<int> k;
        for (int i = 0; i < n; ++i) k.push_back(r.in(-rng, rng));
        any_cap<int>(r, size, k);
    }
}
int main(int c, char** v) { return drive(c, v, one, 12); }
