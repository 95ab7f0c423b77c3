#include "h.h"
#include "cppev/utils.h"
#include <chrono>
#include <pthread.h>
using std::string; using std::vector;

// ---------------------------------------------------------------- split / join
static bool match(const string &s, size_t at, const string &sep) { if (at + sep.size() > s.size()) return false; unsigned d = 0; for (size_t i = 0; i < sep.size(); ++i) d |= (unsigned char)(s[at + i] ^ sep[i]); return d == 0; }
static vector<string> refSplit(const string &s, const string &sep) {   // leftmost, non-overlapping
    vector<string> out; size_t last = 0, i = 0;
    while (i + sep.size() <= s.size()) { if (match(s, i, sep)) { out.push_back(s.substr(last, i - last)); i += sep.size(); last = i; } else ++i; }
    out.push_back(s.substr(last)); return out;
}
ENTRY utils_split() {
    int n = range(0, param("len", 5), "len"), m = range(1, param("sep", 2), "seplen");
    string s = anystr(n, "str"), sep = anystr(m, "sep");
    vector<string> r = cppev::split(s, sep), e = refSplit(s, sep);
    VK_ASSERT(r.size() == e.size(), "split yields one more piece than separators");
    for (size_t i = 0; i < r.size(); ++i) VK_ASSERT(same(r[i], e[i]), "split cuts at the leftmost non-overlapping separators");
    string j = cppev::join(r, sep);
    VK_ASSERT(same(j, s), "joining the pieces with the separator gives the string back");
    if (r.size() > 2) vk_reach("three pieces");
}
ENTRY utils_split_empty_sep() {
    string s = anystr(range(0, 3, "len"), "str");
    VK_ASSERT(throws<std::runtime_error>([&] { cppev::split(s, ""); }) == 1, "splitting by an empty separator is refused");
    vk_reach("refused");
}
ENTRY utils_join() {
    int k = range(0, param("pieces", 3), "pieces"), m = range(0, 2, "seplen");
    vector<string> v; string sep = anystr(m, "sep"), e;
    for (int i = 0; i < k; ++i) { v.push_back(anystr(range(0, param("plen", 2), "piecelen"), "piece")); if (i) e += sep; e += v.back(); }
    string j = cppev::join(v, sep);
    VK_ASSERT(same(j, e), "join puts the separator between the pieces and nowhere else");
    vk_reach("joined"); if (k == 0) vk_reach("no pieces");
}
// several threads at once: nothing is shared between calls
static string t_s[2], t_sep[2]; static vector<string> t_r[2]; static string t_o[2][4]; static long t_n[2];
static void *t_run(void *a) { long i = (long)a; t_r[i] = cppev::split(t_s[i], t_sep[i]); t_o[i][0] = cppev::join(t_r[i], t_sep[i]); t_o[i][1] = cppev::strip(t_s[i], t_sep[i]); t_o[i][2] = cppev::lstrip(t_s[i], t_sep[i]); t_o[i][3] = cppev::rstrip(t_s[i], t_sep[i]); t_n[i] = cppev::greatest_common_divisor(12 + 6 * i, 18) * 1000 + cppev::least_common_multiple({2, 3 + i, 5}); return nullptr; }
ENTRY utils_threads() {
    static const char *s[] = {",a,,b,", "--x--yz-", "", "abcabc"}, *sep[] = {",", "--", "q", "abc"}; pthread_t t[2];
    for (long i = 0; i < 2; ++i) { int k = choose(4, "text"); t_s[i] = s[k]; t_sep[i] = sep[k]; } for (long i = 0; i < 2; ++i) pthread_create(&t[i], nullptr, t_run, (void *)i); for (auto x : t) pthread_join(x, nullptr);
    for (int i = 0; i < 2; ++i) {
        vector<string> e = refSplit(t_s[i], t_sep[i]); VK_ASSERT(t_r[i] == e, "split cuts at the leftmost non-overlapping separators"); VK_ASSERT(t_o[i][0] == t_s[i], "joining the pieces with the separator gives the string back"); size_t b = 0, z = e.size(); while (b + 1 < z && e[b].empty()) ++b; while (z > 1 && e[z - 1].empty()) --z; size_t y = std::max(z, b + 1);
        auto rest = [&](size_t f, size_t l) { return cppev::join(vector<string>(e.begin() + f, e.begin() + l), t_sep[i]); }; VK_ASSERT(t_o[i][1] == rest(b, y) && t_o[i][2] == rest(b, e.size()) && t_o[i][3] == rest(0, z), "exactly the repetitions of the pattern at the chosen ends are removed"); VK_ASSERT(t_n[i] == (i ? 18 * 1000 + 20 : 6 * 1000 + 30), "the results of several threads are independent");
    }
    vk_reach("at once");
}
ENTRY utils_split_large() {   // long separators, many pieces, long pieces
    static const int seps[] = {1, 16, 127, 128, 255, 256, 400}; int m = seps[choose(7, "separator length")], k = choose(2, "many") ? 300 : 3, len = choose(2, "long") && k == 3 ? 5000 : 2; string sep(m, '-'), s; sep[m - 1] = '+'; vector<string> e;
    for (int i = 0; i < k; ++i) { e.push_back(string(i % 5 == 4 ? 0 : len, (char)('a' + i % 26))); if (i) s += sep; s += e.back(); if (i % 3 == 0) { s += "-"; e.back() += "-"; } }
    vector<string> r = cppev::split(s, sep); VK_ASSERT(r.size() == e.size(), "split yields one more piece than separators"); for (size_t i = 0; i < r.size(); ++i) VK_ASSERT(r[i] == e[i], "split cuts at the leftmost non-overlapping separators"); VK_ASSERT(cppev::join(r, sep) == s, "joining the pieces with the separator gives the string back"); vk_reach("large");
}
// ---------------------------------------------------------------- strip
static string refStrip(string s, const string &c, bool l, bool r) {
    while (l && s.size() >= c.size() && match(s, 0, c)) s = s.substr(c.size());
    while (r && s.size() >= c.size() && match(s, s.size() - c.size(), c)) s = s.substr(0, s.size() - c.size());
    return s;
}
ENTRY utils_strip() {
    int n = range(0, param("len", 5), "len"), m = range(1, param("chars", 2), "charslen"), how = choose(3, "how");
    string s = anystr(n, "str"), c = anystr(m, "chars");
    string r = how == 0 ? cppev::strip(s, c) : how == 1 ? cppev::lstrip(s, c) : cppev::rstrip(s, c);
    string e = refStrip(s, c, how != 2, how != 1);
    VK_ASSERT(r.size() == e.size() && same(r, e), "strip removes exactly the repetitions at the requested ends");
    if (r.size() < s.size()) vk_reach("stripped"); else vk_reach("kept");
}
ENTRY utils_strip_overlap() {   // patterns that overlap themselves, nothing left between the ends
    int n = range(6, param("len", 9), "len"), m = 3, how = choose(3, "how"); string c = choose(2, "chars") ? "aba" : "aaa", s(n, 'a'); for (int i = 0; i < n; ++i) { char x = (char)u8("str"); vk_assume(x == 'a' || x == 'b'); s[i] = x; } (void)m;
    string r = how == 0 ? cppev::strip(s, c) : how == 1 ? cppev::lstrip(s, c) : cppev::rstrip(s, c), e = refStrip(s, c, how != 2, how != 1); VK_ASSERT(r.size() == e.size() && same(r, e), "strip removes exactly the repetitions at the requested ends"); if (r.size() + 6 == s.size() && how == 0) vk_reach("both ends");
}
ENTRY utils_strip_large() {   // long patterns, many repetitions
    static const int pats[] = {1, 2, 16, 127, 128, 255, 256, 400}; int m = pats[choose(8, "pattern length")], l = choose(3, "left") * 70, t = choose(3, "right") * 70, how = choose(3, "how"); string c(m, '-'), s, mid = choose(2, "middle") ? "x y-z" : ""; c[m - 1] = '+'; if (m > 100) { l /= 10; t /= 10; }
    for (int i = 0; i < l; ++i) s += c; s += mid; for (int i = 0; i < t; ++i) s += c; string e; if (how != 0 && !(mid.empty())) { if (how == 2) for (int i = 0; i < l; ++i) e += c; e += mid; if (how == 1) for (int i = 0; i < t; ++i) e += c; } else e = mid;
    VK_ASSERT((how == 0 ? cppev::strip(s, c) : how == 1 ? cppev::lstrip(s, c) : cppev::rstrip(s, c)) == e, "strip removes exactly the repetitions at the requested ends"); vk_reach("large");
}
ENTRY utils_strip_empty() {
    string s = anystr(range(0, 3, "len"), "str"); int how = choose(3, "how");
    VK_ASSERT(throws<std::runtime_error>([&] { how == 0 ? cppev::strip(s, "") : how == 1 ? cppev::lstrip(s, "") : cppev::rstrip(s, ""); }) == 1, "stripping an empty pattern is refused");
    vk_reach("refused");
}
// ---------------------------------------------------------------- gcd / lcm
static int64_t num(const char *n, int64_t max) { int64_t v = (int64_t)vk_val(param("bits", 5), n); vk_assume(v >= 1 && v <= max); return v; }
ENTRY utils_gcd() {
    int64_t a = num("a", (1LL << param("bits", 5)) - 1), b = num("b", (1LL << param("bits", 5)) - 1);
    int64_t g = cppev::greatest_common_divisor(a, b), l = cppev::least_common_multiple(a, b);
    VK_ASSERT(g >= 1 && a % g == 0 && b % g == 0, "gcd divides both numbers");
    int64_t c = num("candidate", (1LL << param("bits", 5)) - 1);
    VK_ASSERT(!(a % c == 0 && b % c == 0) || g % c == 0, "every common divisor divides the gcd");
    VK_ASSERT(l >= 1 && l % a == 0 && l % b == 0, "lcm is a multiple of both numbers");
    VK_ASSERT(l * g == a * b, "lcm times gcd is the product");
    VK_ASSERT(cppev::greatest_common_divisor(b, a) == g && cppev::least_common_multiple(b, a) == l, "gcd and lcm do not depend on the order");
    vk_reach("computed");
}
ENTRY utils_gcd_list() {
    int k = range(2, 3, "count"); vector<int64_t> v; for (int i = 0; i < k; ++i) v.push_back(num("n", (1LL << param("bits", 4)) - 1));
    int64_t g = cppev::greatest_common_divisor(v), l = cppev::least_common_multiple(v), c = num("candidate", (1LL << param("bits", 4)) - 1), m = (int64_t)vk_val(8, "multiple");
    bool cd = true, cm = m > 0;
    for (int64_t x : v) { VK_ASSERT(g >= 1 && x % g == 0, "gcd of a list divides every member"); VK_ASSERT(l >= 1 && l % x == 0, "lcm of a list is a multiple of every member"); cd = cd && x % c == 0; cm = cm && m % x == 0; }
    VK_ASSERT(!cd || g % c == 0, "every common divisor of a list divides its gcd");
    VK_ASSERT(!cm || m % l == 0, "every common multiple of a list is a multiple of its lcm");
    vk_reach("computed");
}
ENTRY utils_gcd_many() {      // long lists, large numbers
    static const int64_t base[] = {1, 1000000, 1000000007LL, 1LL << 40}; int64_t b = base[choose(4, "factor")]; int n = choose(2, "many") ? 60 : 17, at = choose(3, "place"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; vector<int64_t> v((size_t)n, 12 * b); v[at] = 18 * b; v[(at + 1) % n] = 30 * b;
    VK_ASSERT(cppev::greatest_common_divisor(v) == 6 * b, "gcd of a list divides every member and is divided by every common divisor"); VK_ASSERT(cppev::least_common_multiple(v) == 180 * b, "lcm of a list is a multiple of every member and divides every common multiple");
    v[at] = 7; VK_ASSERT(cppev::greatest_common_divisor(v) == 1, "gcd of a list divides every member and is divided by every common divisor"); vk_reach("many");
}
// large periods whose product does not fit 64 bits, but whose lcm does
ENTRY utils_lcm_large() {
    int64_t a = (int64_t)vk_val(3, "a") + 1, b = (int64_t)vk_val(3, "b") + 1, base = 1000000000000LL;
    int64_t l = cppev::least_common_multiple(a * base, b * base), s = cppev::least_common_multiple(a, b);
    VK_ASSERT(l == s * base, "lcm does not overflow when the result fits");
    vk_reach("computed");
}
// ---------------------------------------------------------------- time points
ENTRY utils_ceil() {
    using C = std::chrono::system_clock;
    int64_t ns = (int64_t)vk_val(64, "ns"); vk_assume(ns >= 0 && ns < 9000000000000000000LL);
    C::time_point p{C::duration(ns)}, q = cppev::ceil_time_point<C>(p);
    int64_t r = q.time_since_epoch().count();
    VK_ASSERT(r % 1000000000LL == 0, "the result is a whole second");
    VK_ASSERT(r >= ns && r - ns <= 1000000000LL, "the result is the next whole second, never in the past");
    vk_reach("ceiled");
}
ENTRY utils_ceil_near() {       // every nanosecond of some seconds
    using C = std::chrono::system_clock; static const int64_t q[] = {0, 1, 59, 2147483646, 2147483647, 2147483648LL, 4294967295LL, 4294967296LL, 1763550000, 8999999998LL};
    int64_t s = q[choose(10, "second")], x = (int64_t)vk_val(30, "nanosecond"); vk_assume(x < 1000000000); int64_t r = cppev::ceil_time_point<C>(C::time_point{C::duration(s * 1000000000 + x)}).time_since_epoch().count();
    VK_ASSERT(r == (s + 1) * 1000000000 || (x == 0 && r == s * 1000000000), "the result is the next whole second, never in the past"); vk_reach("near");
}
struct MicroClock { using duration = std::chrono::microseconds; using rep = duration::rep; using period = duration::period; using time_point = std::chrono::time_point<MicroClock>; static constexpr bool is_steady = true; };
ENTRY utils_ceil_micro() {
    int64_t us = (int64_t)vk_val(64, "us"); vk_assume(us >= 0 && us < 9000000000000000LL);
    MicroClock::time_point p{std::chrono::microseconds(us)}, q = cppev::ceil_time_point<MicroClock>(p);
    int64_t r = q.time_since_epoch().count();
    VK_ASSERT(r % 1000000 == 0 && r >= us && r - us <= 1000000, "the result is the next whole second in the clock's own unit");
    vk_reach("ceiled");
}
