#include "inst.hpp"
using namespace vf;
static void one(Rnd& r, int size) {
    CoverCounters cc((size_t)r.in(0, 5));
    int n = r.in(1, size + 2);
    cc.reset(n);
    std::vector<unsigned> ref(n, 0);
    check(cc.size() == (size_t)n, "size after reset");
    std::vector<std::vector<int>> in;
    for (int k = 0; k < 30; ++k) {
        int op = r.in(0, 9);
        std::vector<ridx_t> s;
        int len = r.in(0, n);
        for (int t = 0; t < len; ++t) s.push_back((ridx_t)r.in(0, n - 1));
        if (op < 4) {
            cur() << "cover " << show(s) << "\n";
            size_t e = 0;
            for (int i : s) { e += ref[i] == 0; ++ref[i]; }
            check(cc.cover(s) == e, "count of newly covered");
            in.push_back(std::vector<int>(s.begin(), s.end()));
        } else if (op < 6 && !in.empty()) {
            int x = r.in(0, (int)in.size() - 1);
            s.assign(in[x].begin(), in[x].end());
            in.erase(in.begin() + x);
            cur() << "uncover " << show(s) << "\n";
            size_t e = 0;
            for (int i : s) { --ref[i]; e += ref[i] == 0; }
            check(cc.uncover(s) == e, "count of uncovered");
        } else if (op == 6) {
            bool e = true; for (int i : s) e = e && ref[i] > 0;
            cur() << "is_redundant_cover " << show(s) << "\n";
            check(cc.is_redundant_cover(s) == e, "redundant cover");
        } else if (op == 7) {
            bool e = true; for (int i : s) e = e && ref[i] > 1;
            cur() << "is_redundant_uncover " << show(s) << "\n";
            check(cc.is_redundant_uncover(s) == e, "redundant uncover");
        } else if (op == 9 && r.p(2)) {         // one row covered very often
            int i = r.in(0, n - 1), times = r.p(30) ? 70000 : 300;
            s.assign(1, (ridx_t)i);
            cur() << "cover " << show(s) << " " << times << " times\n";
            for (int q = 0; q < times; ++q) { size_t e = ref[i]++ == 0; check(cc.cover(s) == e, "count of newly covered"); }
        } else if (op == 8 && r.p(20)) {
            n = r.in(1, size + 2); cur() << "reset " << n << "\n";
            cc.reset(n); ref.assign(n, 0); in.clear();
        }
        check(cc.size() == (size_t)n, "size");
        for (int i = 0; i < n; ++i) check(cc[i] == ref[i], "counter " + std::to_string(i) + " is " + std::to_string(cc[i]) + " expected " + std::to_string(ref[i]));
    }
}
int main(int c, char** v) { return drive(c, v, one); }
