// Native oracle of P01: the power function against repeated multiplication.
// search <prop> <seed> <tier> | replay <prop> <exponent type> <exponent> [base]
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <csignal>
#include <unistd.h>
#include <nil/detail/static_pow.hpp>
static std::string cur;
static long tried = 0, nontriv = 0;
static bool bad = false;
static void died(int s) { printf("AT %s\n", cur.c_str()); fflush(stdout); _exit(100 + s % 100); }
// matrices over the 64-bit integers: associative, not commutative
struct mat {
    std::uint64_t a = 1, b = 0, c = 0, d = 1;
    mat(int) {}
    mat(std::uint64_t a, std::uint64_t b, std::uint64_t c, std::uint64_t d) : a(a), b(b), c(c), d(d) {}
    mat operator*(const mat &o) const { return mat(a * o.a + b * o.c, a * o.b + b * o.d, c * o.a + d * o.c, c * o.b + d * o.d); }
    mat &operator*=(const mat &o) { return *this = *this * o; }
    bool operator==(const mat &o) const { return a == o.a && b == o.b && c == o.c && d == o.d; }
};
// words: the free monoid
struct word {
    std::string s;
    word(int) {}
    word(const std::string &s) : s(s) {}
    word operator*(const word &o) const { return word(s + o.s); }
    word &operator*=(const word &o) { s += o.s; return *this; }
    bool operator==(const word &o) const { return s == o.s; }
};
template<typename T> T plain(const T &x, std::uint64_t n) {          // leading digit first
    T r = T(1);
    for (int i = 63; i >= 0; i--) { r = r * r; if (n >> i & 1) r = r * x; }
    return r;
}
template<typename T, typename U> void one(const char *what, const T &x, U n) {
    if (!(nil::crypto3::detail::pow(x, n) == plain(x, (std::uint64_t)n))) { if (!bad) printf("FAIL P01 %s :: wrong power of a %s\n", cur.c_str(), what); bad = true; }
}
template<typename U> void types(const char *tn, std::uint64_t n0, std::uint64_t b) {
    U n = (U)n0;
    if ((std::uint64_t)n != n0 || n < 0) return;
    cur = std::string(tn) + " " + std::to_string(n0) + " " + std::to_string(b);
    tried++; if (n0 > 1) nontriv++;
    alarm(20);
    one("64-bit number", b, n);
    one("32-bit number", (unsigned)b, n);
    one("matrix", mat(b, b >> 7, b % 1000 + 1, b ^ 5), n);
    if (n0 < 5000) one("word", word(std::string("a") + std::to_string(b % 10)), n);
    alarm(0);
}
static void all(const std::string &t, std::uint64_t n, std::uint64_t b) {
    bad = false;
    if (t == "*" || t == "u64") types<std::uint64_t>("u64", n, b);
    if (t == "*" || t == "u32") types<std::uint32_t>("u32", n, b);
    if (t == "*" || t == "u16") types<std::uint16_t>("u16", n, b);
    if (t == "*" || t == "i32") types<int>("i32", n, b);
    if (t == "*" || t == "i64") types<long>("i64", n, b);
}
int main(int c, char **v) {
    for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGFPE, SIGTRAP, SIGALRM, SIGBUS}) signal(s, died);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (c < 4) return 2;
    std::string mode = v[1];
    if (mode == "replay") { all(v[3], strtoull(v[4], nullptr, 10), c > 5 ? strtoull(v[5], nullptr, 10) : 3); return bad; }
    std::mt19937_64 g(strtoull(v[3], nullptr, 10) * 0x9e3779b97f4a7c15ull + 1);
    int rounds = !strcmp(c > 4 ? v[4] : "quick", "thorough") ? 200000 : 20000;
    bool any = false;
    for (std::uint64_t n = 0; n < 1100 && !any; n++) for (std::uint64_t b : {0, 1, 2, 3, 10}) { all("*", n, b); any |= bad; }
    for (int i = 0; i < 64 && !any; i++) for (std::uint64_t d = 0; d < 5; d++) { all("*", (1ull << i) + d - 2, 3); any |= bad; all("*", ~0ull - ((1ull << i) - 1) + d - 2, 3); any |= bad; }
    if (const char *e = getenv("VF_DICT"))
        for (char *p = (char *)e; *p && !any;) { std::uint64_t n = strtoull(p, &p, 10); if (*p) p++; for (std::uint64_t b : {2, 3}) { all("*", n, b); any |= bad; all("*", n * 2 + 1, b); any |= bad; } }
    for (int i = 0; i < rounds && !any; i++) { all("*", g() >> (g() % 64), g()); any |= bad; }
    printf("TRIED %ld NONTRIVIAL %ld\n", tried, nontriv);
    return any;
}
