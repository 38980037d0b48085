// String views against std::string.
#include "inst.hpp"
#include "utils/StringView.hpp"
#include "utils/parse_utils.hpp"
using namespace vf;
static std::string gen(Rnd& r, int size) {
    static const char al1[] = "ab", al2[] = " \tab", al3[] = " \n\v\f\r\tabcAZ09-./\\_";
    std::string s;
    int n = r.in(0, 2 * size), k = r.in(0, 3);
    for (int i = 0; i < n; ++i) {
        if (k == 0) s += al1[r.in(0, 1)];
        else if (k == 1) s += al2[r.in(0, 3)];
        else if (k == 2) s += al3[r.in(0, (int)sizeof(al3) - 2)];
        else s += (char)(r.p(5) ? 0 : r.in(1, 127));
    }
    return s;
}
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static std::string quote(std::string const& s) {
    std::string o = "\"";
    char b[8];
    for (char c : s) { if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", (unsigned char)c); o += b; } else o += c; }
    return o + "\"";
}
static std::string str(StringView v) { return std::string(v.begin(), v.end()); }
static void eq(StringView got, std::string const& want, char const* what) {
    check(str(got) == want, std::string(what) + " gives " + quote(str(got)) + ", expected " + quote(want));
}
// text in memory of exactly its size: reads outside are caught
struct Mem {
    char* p; size_t n;
    explicit Mem(std::string const& s) : p(new char[s.size() ? s.size() : 1]), n(s.size()) { memcpy(p, s.data(), n); }
    ~Mem() { delete[] p; }
    StringView v() const { return StringView(p, p + n); }
};
static int sgn(int x) { return (x > 0) - (x < 0); }
static void one(Rnd& r, int size) {
    std::string a = gen(r, size), b = r.p(30) ? a : gen(r, size);
    if (r.p(20)) b = a.substr(0, (size_t)r.in(0, (int)a.size())) + (r.p(50) ? gen(r, 2) : "");
    if (r.p(10) && !b.empty()) b[(size_t)r.in(0, (int)b.size() - 1)] = 'q';
    cur() << quote(a) << " " << quote(b) << "\n";
    Mem ma(a), mb(b);
    StringView va = ma.v(), vb = mb.v();
    int w = sgn(a.compare(b));
    check(sgn(va.compare(vb)) == w, "compare gives " + std::to_string(va.compare(vb)) + ", expected " + std::to_string(w));
    check((va == vb) == (w == 0) && (va != vb) == (w != 0), "== or !=");
    check((va < vb) == (w < 0) && (va <= vb) == (w <= 0), "< or <=");
    check((va > vb) == (w > 0) && (va >= vb) == (w >= 0), "> or >=");
    check(va.size() == a.size() && va.empty() == a.empty(), "size or empty");
    for (size_t i = 0; i < a.size(); ++i) check(va[i] == a[i], "[]");
    check(va.to_cpp_string() == a, "to_cpp_string");
    { StringView c(a); check(str(c) == a, "from a string"); StringView d(ma.p, a.size()); check(str(d) == a, "from a pointer and a size"); }
    if (a.find('\0') == std::string::npos) { StringView c(a.c_str()); check(str(c) == a, "from a character array"); }
    char ch = a.empty() ? 'x' : a[(size_t)r.in(0, (int)a.size() - 1)];
    size_t f = a.find(ch), l = a.rfind(ch);
    if (f == std::string::npos) f = a.size();
    if (l == std::string::npos) l = a.size();
    auto is = [ch](char c) { return c == ch; };
    check(va.find_first_true(is) == f, "find_first_true gives " + std::to_string(va.find_first_true(is)) + ", expected " + std::to_string(f));
    check(va.find_last_true(is) == l, "find_last_true gives " + std::to_string(va.find_last_true(is)) + ", expected " + std::to_string(l));
    auto never = [](char) { return false; };
    check(va.find_first_true(never) == a.size() && va.find_last_true(never) == a.size(), "search without a match");
    size_t p = (size_t)r.in(0, (int)a.size()), q = (size_t)r.in((int)p, (int)a.size());
    cur() << "positions " << p << " " << q << "\n";
    eq(va.remove_prefix(p), a.substr(p), "remove_prefix");
    eq(va.remove_suffix(p), a.substr(0, p), "remove_suffix");
    eq(va.get_substr(p, q), a.substr(p, q - p), "get_substr");
    size_t s0 = 0, s1 = a.size();
    while (s0 < a.size() && blank(a[s0])) ++s0;
    while (s1 > 0 && blank(a[s1 - 1])) --s1;
    eq(ltrim(va), a.substr(s0), "ltrim");
    eq(trim(va), s0 < s1 ? a.substr(s0, s1 - s0) : "", "trim");
    eq(rtrim(va), a.substr(0, s1), "rtrim");
    std::vector<std::string> want, got;
    for (size_t i = 0; i < a.size();) {
        while (i < a.size() && blank(a[i])) ++i;
        size_t k = i;
        while (k < a.size() && !blank(a[k])) ++k;
        if (k > i) want.push_back(a.substr(i, k - i));
        i = k;
    }
    for (StringView t : split(va)) got.push_back(str(t));
    std::string gs, ws;
    for (auto const& t : got) gs += quote(t) + " ";
    for (auto const& t : want) ws += quote(t) + " ";
    check(got == want, "split gives " + gs + ", expected " + ws);
}
int main(int c, char** v) { return drive(c, v, one, 10); }
