// Native oracle of Z03: words, chunks and the stack against plain arithmetic and a list.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <nil/blueprint/zkevm/stack.hpp>
using namespace nil::blueprint;
typedef wide Z;
struct field {
    typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<255>> integral_type;
    struct value_type {
        integral_type data;
        value_type() {}
        template<class B> value_type(const boost::multiprecision::number<B> &x) : data(x) {}
        template<class T, class = typename std::enable_if<std::is_integral<T>::value>::type> value_type(T x) : data(x) {}
    };
};
static std::string cur;
static void died(int s) { std::string m = "AT " + cur + "\n"; if (write(1, m.data(), m.size())) {} _exit(128 + s); }
static std::string check(const std::vector<field::value_type> &c, const Z &w, std::size_t n) {
    if (c.size() != n) return "there are " + std::to_string(c.size()) + " chunks";
    Z s = 0;
    for (std::size_t i = 0; i < n; i++) { if (c[i].data.v >= 65536) return "chunk " + std::to_string(i) + " is too large"; s += c[i].data.v << (16 * i); }
    return s == w ? "" : "the chunks make up " + text(s) + " instead of " + text(w);
}
static std::string run(const std::string &c) {
    std::vector<std::string> f; std::istringstream in(c); std::string t; while (std::getline(in, t, ':')) f.push_back(t);
    if (f[0] == "split") { Z w = wide_of(f[1]); zkevm_word_type x; x.v = w; return check(zkevm_word_to_field_element<field>(x), w, 16); }
    if (f[0] == "64") { Z w = wide_of(f[1]); field::value_type x; x.data.v = w; return check(chunk_64_to_16<field>(x), w, 4); }
    if (f[0] == "make") { Z w = wide_of(f[1]); boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>> x; x.v = w; Z got = zwordc(x).v; return got == w % (Z(1) << 256) ? "" : "made " + text(got); }
    zkevm_stack s;
    std::vector<Z> m;
    std::mt19937_64 g(f[0] == "stack" ? 1 : std::strtoull(f[1].c_str(), nullptr, 10));
    std::vector<Z> given; if (f[0] == "stack") { std::istringstream l(f[2]); while (std::getline(l, t, ',')) given.push_back(wide_of(t)); }
    std::size_t at = 0;
    auto word = [&] { if (at < given.size()) return given[at++]; Z w = 0; switch (g() % 8) { case 0: return w; case 1: return Z(g() % 3); case 2: return (Z(1) << 256) - 1 - Z(g() % 2); case 3: return Z(1) << (g() % 256); case 4: if (!m.empty()) return m[g() % m.size()]; } int k = 1 + g() % 4; for (int i = 0; i < k; i++) w = (w << 64) + g(); return w; };
    auto same = [&]() -> std::string { auto c = s; for (std::size_t i = m.size(); i-- > 0;) { Z a = c.pop().v; if (a != m[i]) return "word " + std::to_string(i) + " from the bottom is " + text(a) + " instead of " + text(m[i]); } return ""; };
    auto act = [&](const std::string &op) -> std::string {
        if (op == "push") { Z w = word(); zkevm_word_type x; x.v = w; s.push(x); m.push_back(w); }
        else if (op == "pop") { Z a = s.pop().v; if (a != m.back()) return "popped " + text(a); m.pop_back(); }
        else if (op == "top") { Z a = s.top().v; if (a != m.back()) return "top is " + text(a); }
        else if (op == "swap") { s.swap(); std::swap(m[m.size() - 1], m[m.size() - 2]); }
        else if (op == "dup") { s.dup(); m.push_back(m.back()); }
        return same();
    };
    if (f[0] == "stack") {
        std::size_t n = given.size() - 1; for (std::size_t i = 0; i < n; i++) { auto e = act("push"); if (!e.empty()) return "push: " + e; }
        auto e = act(f[1]); return e.empty() ? "" : f[1] + ": " + e;
    }
    static const char *ops[] = {"push", "pop", "top", "swap", "dup"};
    for (int i = 0, n = 5 + g() % 40; i < n; i++) { std::string op = ops[g() % 5]; if ((op != "push" && m.empty()) || (op == "swap" && m.size() < 2)) op = "push"; auto e = act(op); if (!e.empty()) return op + ": " + e; }
    return "";
}
int main(int argc, char **argv) {
    for (int n : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTRAP}) signal(n, died);
    if (!strcmp(argv[1], "replay")) { std::string e = run(argv[3]); if (!e.empty()) { printf("FAIL Z03 %s :: %s\n", argv[3], e.c_str()); return 1; } return 0; }
    std::mt19937_64 g(strtoull(argv[3], nullptr, 10));
    int n = strcmp(argv[4], "thorough") ? 20000 : 200000, fails = 0; unsigned long tried = 0;
    auto go = [&](const std::string &c) { cur = c; std::string e = run(c); tried++; if (!e.empty() && fails++ < 5) printf("FAIL Z03 %s :: %s\n", c.c_str(), e.c_str()); };
    for (int k = 0; k <= 256; k++) for (int d = -1; d <= 1; d++) { Z w = (Z(1) << k) + d; if (w < Z(1) << 256) go("split:" + text(w)); if (k <= 64 && w < Z(1) << 64) go("64:" + text(w)); if (w < Z(1) << 257) go("make:" + text(w)); }
    for (int i = 0; i < n && fails < 5; i++) {
        Z w = 0; for (int j = 0; j < 16; j++) w = (w << 16) + (g() % 4 == 0 ? 0xffff : g() % 4 == 0 ? 0 : g() % 65536);
        go("split:" + text(w)); go("64:" + text(w % (Z(1) << 64))); go("make:" + text(w * (1 + (int)(g() % 2))));
        if (i % 10 == 0) go("seq:" + std::to_string(g()));
    }
    for (auto op : {"push", "pop", "top", "swap", "dup"}) for (auto l : {"0,0,0", "1,0,0", "0,1,1", "1,1,0", "1,2,3,4", "4,3,2,2,2", "0,0,1,0,1"}) go(std::string("stack:") + op + ":" + l);
    printf("TRIED %lu NONTRIVIAL %lu\n", tried, tried);
    return fails ? 1 : 0;
}
