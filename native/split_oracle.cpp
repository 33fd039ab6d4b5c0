// Native oracle of S01 and S02: the splitting functions against digit-by-digit evaluation.
// search <prop> <seed> <tier> | replay <prop> <call>...   with call = <function>:<base>:<sizes,>:<digits,>
// A case is a sequence of calls in a fresh process, so what the functions keep between calls is part of it.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <random>
#include <string>
#include <sstream>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp>
typedef boost::multiprecision::cpp_int Z;
struct field {
    typedef Z integral_type;
    struct value_type {
        Z data;
        value_type(const Z &d) : data(d) {}
        value_type(std::size_t d) : data(d) {}
        value_type(int d) : data(d) {}
        value_type pow(std::size_t k) const { return value_type(Z(boost::multiprecision::pow(data, (unsigned)k))); }
        value_type operator*(const value_type &o) const { return value_type(Z(data * o.data)); }
        value_type &operator*=(const value_type &o) { data *= o.data; return *this; }
    };
    static value_type one() { return value_type(1); }
};
namespace d = nil::blueprint::components::detail;
typedef std::array<std::vector<Z>, 2> R;
struct Call { std::string fn; std::size_t base; std::vector<std::size_t> sizes; std::vector<std::size_t> dig; };
static std::string text(const Call &c) {
    std::ostringstream o; o << c.fn << ':' << c.base << ':';
    for (std::size_t i = 0; i < c.sizes.size(); i++) o << (i ? "," : "") << c.sizes[i];
    o << ':';
    for (std::size_t i = 0; i < c.dig.size(); i++) o << (i ? "," : "") << c.dig[i];
    return o.str();
}
static std::vector<std::size_t> nums(const std::string &s) { std::vector<std::size_t> r; std::istringstream i(s); std::string t; while (std::getline(i, t, ',')) r.push_back(strtoull(t.c_str(), nullptr, 10)); return r; }
static Call parse(const std::string &s) {
    std::vector<std::string> f; std::istringstream i(s); std::string t;
    while (std::getline(i, t, ':')) f.push_back(t);
    while (f.size() < 4) f.push_back("");
    return Call{f[0], (std::size_t)strtoull(f[1].c_str(), nullptr, 10), nums(f[2]), nums(f[3])};
}
static int bit(const std::string &fn, std::size_t x) { return fn == "split" ? (int)x : fn == "rev" ? x % 2 : fn == "maj" ? x >= 2 : x == 3 || x == 5 || x == 6; }
// the reason when the call gives a wrong answer
static std::string wrong(const Call &c) {
    std::size_t M = 0; for (auto s : c.sizes) M += s;
    if (c.dig.size() < M) return "";
    R r;
    std::vector<std::size_t> sizes = c.sizes;
    if (c.fn == "split") { std::vector<bool> b(c.dig.size()); for (std::size_t i = 0; i < b.size(); i++) b[i] = c.dig[i]; auto b0 = b; r = d::split_and_sparse<field>(b, sizes, c.base); if (b != b0) return "the bits were changed"; }
    else {
        Z v = 0; for (std::size_t i = 0; i < M; i++) v = v * c.base + c.dig[i];
        r = c.fn == "rev" ? d::reversed_sparse_and_split<field>(v, sizes, c.base) : c.fn == "maj" ? d::reversed_sparse_and_split_maj<field>(v, sizes, c.base) : d::reversed_sparse_and_split_ch<field>(v, sizes, c.base);
    }
    if (sizes != c.sizes) return "the sizes were changed";
    if (r[0].size() != c.sizes.size() || r[1].size() != c.sizes.size()) return "wrong number of chunks";
    std::size_t k = 0;
    for (std::size_t i = c.sizes.size(); i-- > 0;) {
        Z a = 0, b = 0;
        for (std::size_t j = 0; j < c.sizes[i]; j++, k++) { a = a * 2 + bit(c.fn, c.dig[k]); b = b * c.base + c.dig[k]; }
        if (r[0][i] != a) return "wrong dense value of chunk " + std::to_string(i);
        if (r[1][i] != b) return "wrong spread value of chunk " + std::to_string(i);
    }
    return "";
}
static long tried = 0, nontriv = 0;
static std::string seqtext(const std::vector<Call> &s, std::size_t n) { std::string t; for (std::size_t i = 0; i < n; i++) t += (i ? " " : "") + text(s[i]); return t; }
// runs the calls in a fresh process; the reason, and how many calls it took
static bool run(const std::string &prop, const std::vector<Call> &s, bool quiet) {
    fflush(stdout);
    int p[2]; if (pipe(p)) exit(2);
    pid_t k = fork();
    if (!k) {
        close(p[0]);
        alarm(20);
        for (std::size_t i = 0; i < s.size(); i++) {
            std::uint32_t n = i; if (write(p[1], &n, 4) != 4) _exit(2);
            std::string w = wrong(s[i]);
            if (!w.empty()) { n = 0xffffffff; if (write(p[1], &n, 4) != 4 || write(p[1], w.c_str(), w.size()) < 0) _exit(2); _exit(1); }
        }
        _exit(0);
    }
    close(p[1]);
    std::string buf; char b[4096]; ssize_t g;
    while ((g = read(p[0], b, sizeof b)) > 0) buf.append(b, g);
    close(p[0]);
    int st; waitpid(k, &st, 0);
    tried += s.size();
    if (WIFEXITED(st) && !WEXITSTATUS(st)) return true;
    std::uint32_t last = 0, n; std::string why = "the real code stopped abnormally";
    for (std::size_t i = 0; i + 4 <= buf.size(); i += 4) { memcpy(&n, &buf[i], 4); if (n == 0xffffffff) { why = buf.substr(i + 4); break; } last = n; }
    if (quiet) return false;
    std::vector<Call> t(s.begin(), s.begin() + last + 1);
    for (std::size_t i = t.size() - 1; i-- > 0;) {          // leave out calls that do not matter
        std::vector<Call> u = t; u.erase(u.begin() + i);
        if (!run(prop, u, true)) t = u;
    }
    printf("FAIL %s %s :: %s\n", prop.c_str(), seqtext(t, t.size()).c_str(), why.c_str());
    return false;
}
static std::mt19937_64 g;
static std::vector<std::uint64_t> dict;
static Call random_call(const std::string &prop) {
    static const char *fns[] = {"rev", "maj", "ch"};
    Call c;
    c.fn = prop == "S01" ? "split" : fns[g() % 3];
    std::size_t top = c.fn == "maj" ? 4 : c.fn == "ch" ? 7 : 0;
    switch (g() % 6) {
        case 0: c.base = top ? top : 4; break;
        case 1: c.base = 2 + g() % 8; break;
        case 2: c.base = 2 + g() % 1000; break;
        case 3: c.base = std::size_t(1) << (1 + g() % 63); break;
        case 4: c.base = dict.empty() ? 7 : dict[g() % dict.size()]; break;
        default: c.base = top ? top : 2 + g() % 3;
    }
    if (c.base < 2) c.base = 2;
    if (top && g() % 3) c.base = top;
    static const std::vector<std::vector<std::size_t>> real = {{2, 11, 9, 10}, {6, 5, 14, 7}, {3, 4, 11, 14}, {10, 7, 2, 13}, {8, 8, 8, 8}, {1, 6, 1, 56}, {28, 6, 5, 25}, {14, 4, 23, 23}, {16, 16, 16, 16}, {32}, {64}};
    std::size_t n;
    switch (g() % 5) {
        case 0: c.sizes = real[g() % real.size()]; break;
        case 1: n = g() % 5; for (std::size_t i = 0; i < n; i++) c.sizes.push_back(1 + g() % 4); break;
        case 2: n = 1 + g() % 12; for (std::size_t i = 0; i < n; i++) c.sizes.push_back(1 + g() % 40); break;
        case 3: n = 1 + g() % 3; for (std::size_t i = 0; i < n; i++) c.sizes.push_back(!dict.empty() && g() % 2 ? 1 + dict[g() % dict.size()] % 300 : 1 + g() % 130); break;
        default: n = 1 + g() % 70; for (std::size_t i = 0; i < n; i++) c.sizes.push_back(1);
    }
    std::size_t M = 0; for (auto s : c.sizes) M += s;
    if (prop == "S01" && g() % 4 == 0) M += g() % 5;         // the string may be longer than the chunks need
    std::size_t hi = prop == "S01" ? 2 : top && top < c.base ? top : c.base;
    int style = g() % 5;
    for (std::size_t i = 0; i < M; i++) c.dig.push_back(style == 0 ? hi - 1 : style == 1 ? 0 : style == 2 ? g() % 2 : style == 3 ? (g() % 8 ? 0 : g() % hi) : g() % hi);
    return c;
}
int main(int c, char **v) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (c < 4) return 2;
    std::string mode = v[1], prop = v[2];
    if (mode == "replay") { std::vector<Call> s; for (int i = 3; i < c; i++) s.push_back(parse(v[i])); return run(prop, s, false) ? 0 : 1; }
    g.seed(strtoull(v[3], nullptr, 10) * 0x9e3779b97f4a7c15ull + 1);
    if (const char *e = getenv("VF_DICT")) { for (auto x : nums(e)) dict.push_back(x); }
    int rounds = !strcmp(c > 4 ? v[4] : "quick", "thorough") ? 100000 : 10000;
    bool ok = true;
    for (int i = 0; i < rounds && ok; i++) {
        std::vector<Call> s;
        for (int n = 1 + g() % 5; n > 0; n--) {
            s.push_back(random_call(prop));
            if (s.size() > 1 && g() % 2) {          // the same shape with another base, or function
                Call q = s[s.size() - 2];
                if (prop == "S02") { static const char *fns[] = {"rev", "maj", "ch"}; q.fn = fns[g() % 3]; }
                std::size_t top = q.fn == "maj" ? 4 : q.fn == "ch" ? 7 : 9; 
                q.base = 2 + g() % 6;
                for (auto &x : q.dig) x = prop == "S01" ? g() % 2 : g() % std::min(q.base, top);
                s.back() = q;
            }
        }
        ok = run(prop, s, false);
        for (auto &q : s) nontriv += q.sizes.size() > 1;
    }
    printf("TRIED %ld NONTRIVIAL %ld\n", tried, nontriv);
    return !ok;
}
