// Native oracle of T01 and T02: the table loaders, with the real parser, against a plain reading of the text.
// search <prop> <seed> <tier> | replay <prop> <case>
// cases: bin:<name in hex> | text:<columns>:<text in hex> | files:<columns>:<text in hex or ->,...
#include <algorithm>
#include <array>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <boost/multiprecision/cpp_int.hpp>
#include <nil/blueprint/detail/lookup_table_loaders.hpp>
namespace mp = boost::multiprecision;
template<unsigned B> using uint_of = mp::number<mp::cpp_int_backend<B, B, mp::unsigned_magnitude, mp::unchecked, void>>;
template<std::size_t Bits, unsigned Store> struct field {
    typedef uint_of<Store> integral_type;
    typedef integral_type value_type;
    static constexpr std::size_t modulus_bits = Bits;
};
typedef field<61, 128> f61;
typedef field<255, 256> f255;
typedef field<381, 384> f381;
namespace D = nil::blueprint::components::detail;
typedef std::vector<std::vector<std::string>> cells;       // by row
static std::string cur, prop;
static long tried = 0, nontriv = 0;
static std::string dir;                                     // scratch, made and removed by this program
static void clear() { for (char c = 'a'; c < 'i'; c++) unlink((dir + "/" + c).c_str()); rmdir(dir.c_str()); }
static void died(int s) { printf("AT %s\n", cur.c_str()); fflush(stdout); if (!dir.empty()) clear(); _exit(100 + s % 100); }
static bool bad = false, any = false;
static void fail(const std::string &why) { if (!bad) printf("FAIL %s %s :: %s\n", prop.c_str(), cur.c_str(), why.c_str()); bad = any = true; }
static std::string hex(const std::string &s) { std::string r; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); r += b; } return r; }
static std::string unhex(const std::string &s) { std::string r; for (size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16); return r; }

// the plain reading: the rows, or nothing; numbers without leading zeroes in lower case
static std::string number(std::string w) {
    for (char &c : w) { if (!isxdigit((unsigned char)c)) return ""; c = tolower(c); }
    size_t i = w.find_first_not_of('0');
    return i == std::string::npos ? (w.empty() ? "" : "0") : w.substr(i);
}
static bool reading(const std::string &text, size_t cols, cells &out) {
    std::istringstream s(text); std::string l;
    std::getline(s, l);
    size_t n = strtoull(l.c_str(), nullptr, 10);
    out.clear();
    for (size_t i = 0; i < n; i++) {
        if (!std::getline(s, l)) return false;
        std::istringstream ws(l); std::string w; std::vector<std::string> row;
        while (row.size() < cols && ws >> w) { w = number(w); if (w.empty()) return false; row.push_back(w); }
        if (row.size() < cols) return false;
        out.push_back(row);
    }
    return true;
}
// numbers no wider than the field: the table is one of that field
static bool fits(const std::string &text, size_t bits) {
    std::istringstream s(text); std::string w;
    while (s >> w) {
        std::string n = number(w);
        if (!n.empty() && (w.size() > (bits + 3) / 4 || (n.size() * 4 > bits && n.size() * 4 - bits >= 4))) return false;
    }
    return true;
}
template<typename F> void compare(bool ok, const std::vector<std::vector<typename F::value_type>> &r, bool want, const cells &w, size_t cols) {
    if (ok != want) return fail(want ? "a readable table is refused" : "an unreadable table is accepted");
    if (!ok) return;
    if (r.size() != cols) return fail("wrong number of columns");
    for (size_t j = 0; j < cols; j++) {
        if (r[j].size() != w.size()) return fail("wrong number of rows");
        for (size_t i = 0; i < w.size(); i++) {
            std::ostringstream o; o << std::hex << r[j][i];
            if (o.str() != w[i][j]) return fail("row " + std::to_string(i) + " column " + std::to_string(j) + " holds " + o.str() + " instead of " + w[i][j]);
        }
    }
}
template<typename F> std::vector<std::vector<typename F::value_type>> before(int k, size_t cols) {
    if (k == 0) return {};
    typedef typename F::value_type V;
    return std::vector<std::vector<V>>(k == 1 ? cols + 2 : 1, std::vector<V>(k == 1 ? 7 : 1, V(0xdead)));
}
template<typename F> void text_case(const std::string &text, size_t cols) {
    if (!fits(text, F::modulus_bits)) return;
    cells w; bool want = reading(text, cols, w);
    for (int k = 0; k < 3; k++) {
        auto r = before<F>(k, cols);
        std::istringstream s(text);
        bool ok = D::parse_lookup_table<F>(s, cols, r);
        compare<F>(ok, r, want, w, cols);
    }
}
template<typename F> void files_case(const std::vector<std::string> &texts, const std::vector<bool> &there, size_t cols) {
    for (size_t i = 0; i < texts.size(); i++) if (there[i] && !fits(texts[i], F::modulus_bits)) return;
    std::set<std::string> paths; cells w; bool want = false;
    for (size_t i = 0; i < texts.size(); i++) {
        std::string p = dir + "/" + (char)('a' + i);
        paths.insert(p);
        if (there[i]) { std::ofstream(p) << texts[i]; if (!want) want = reading(texts[i], cols, w); }
    }
    auto r = before<F>(1, cols);
    bool ok = D::load_lookup_table<F>(paths, cols, r);
    compare<F>(ok, r, want, w, cols);
    for (auto &p : paths) unlink(p.c_str());
}
static void text(const std::string &t, size_t cols) {
    cur = "text:" + std::to_string(cols) + ":" + hex(t); bad = false; tried++; if (t.size() > 8) nontriv++;
    alarm(30);
    text_case<f61>(t, cols); text_case<f255>(t, cols); text_case<f381>(t, cols);
    alarm(0);
}
static void files(const std::vector<std::string> &t, const std::vector<bool> &there, size_t cols) {
    cur = "files:" + std::to_string(cols) + ":"; bad = false; tried++; nontriv++;
    for (size_t i = 0; i < t.size(); i++) cur += (i ? "," : "") + (there[i] ? hex(t[i]) : std::string("-"));
    alarm(30);
    files_case<f255>(t, there, cols);
    alarm(0);
}
static void table(const std::string &name) {
    cur = "bin:" + hex(name); bad = false; tried++;
    std::vector<std::vector<f255::value_type>> r(1, std::vector<f255::value_type>(3, 9));
    alarm(60);
    bool ok = D::load_lookup_table_from_bin<f255>(name, r);
    alarm(0);
    int base = name == "8_split_4" ? 4 : name == "8_split_7" ? 7 : 0;
    if (!base) { if (ok) fail("an unknown name is accepted"); return; }
    nontriv++;
    if (!ok) return fail("the table does not load");
    if (r.size() != 2 || r[0].size() != r[1].size()) return fail("not two columns of one length");
    std::map<std::string, int> want; size_t count = 0;
    std::set<unsigned long> seen;
    auto pow = [](unsigned b, int k) { unsigned long v = 1; while (k--) v *= b; return v; };
    for (unsigned d = 0; d < 65536; d++) {
        unsigned dig[8]; for (int k = 0; k < 8; k++) dig[k] = d >> 2 * k & 3;
        bool in = true;
        if (base == 7) for (int k = 0; k < 3; k++) if ((dig[k] == 0 && dig[k + 5] == 3) || (dig[k] == 3 && dig[k + 5] == 0)) in = false;
        count += in;
    }
    for (size_t i = 0; i < r[0].size(); i++) {
        if (r[1][i] >= pow(base, 8)) return fail("row " + std::to_string(i) + " is not a string of eight digits");
        unsigned long v = (unsigned long)r[1][i], bits = 0; unsigned dig[8];
        if (!seen.insert(v).second) return fail("row " + std::to_string(i) + " repeats a digit string");
        for (int k = 0; k < 8; k++) { dig[k] = v % base; v /= base; if (dig[k] > 3) return fail("row " + std::to_string(i) + " has a digit above 3"); bits |= (unsigned long)(dig[k] & 1) << k; }
        if (base == 7) for (int k = 0; k < 3; k++) if ((dig[k] == 0 && dig[k + 5] == 3) || (dig[k] == 3 && dig[k + 5] == 0)) return fail("row " + std::to_string(i) + " cannot come from a word");
        if (r[0][i] != bits) return fail("row " + std::to_string(i) + " pairs a digit string with other bits");
    }
    if (seen.size() != count) fail("some digit string is not covered");
#if defined(_8_SPLIT_4) && defined(_8_SPLIT_7)
    const char *data = base == 4 ? _8_SPLIT_4 : _8_SPLIT_7;
    size_t lines = 0; for (const char *p = data; *p; p++) if (*p == '\n' || !p[1]) lines++;
    if (lines != count + 1) fail("the table has rows it does not declare");
#endif
}
static bool run(const std::string &c) {
    size_t a = c.find(':'); std::string k = c.substr(0, a), rest = c.substr(a + 1);
    if (k == "bin") { table(unhex(rest)); return true; }
    size_t b = rest.find(':'); size_t cols = strtoull(rest.c_str(), nullptr, 10); rest = rest.substr(b + 1);
    if (k == "text") { text(unhex(rest), cols); return true; }
    if (k == "files") {
        std::vector<std::string> t; std::vector<bool> there; std::istringstream s(rest); std::string w;
        while (std::getline(s, w, ',')) { there.push_back(w != "-"); t.push_back(w == "-" ? "" : unhex(w)); }
        files(t, there, cols); return true;
    }
    return false;
}
static std::mt19937_64 rng;
static size_t below(size_t n) { return rng() % n; }
static std::string digits(size_t bits) {
    static const char *H[2] = {"0123456789abcdef", "0123456789ABCDEF"};
    size_t n = below(3) == 0 ? (bits + 3) / 4 : below(2) ? 1 + below(4) : 1 + below((bits + 3) / 4);
    std::string s; const char *h = H[below(2)];
    for (size_t i = 0; i < n; i++) s += h[below(16)];
    if (n == (bits + 3) / 4) s[0] = '1';
    return s;
}
static std::string some(size_t cols, int harm, size_t bits) {
    size_t n = below(6) || cols > 4 ? below(6) : below(40), spoilt = n ? below(n) : 0;
    std::string s = std::to_string(n) + "\n";
    if (harm == 1 && n) spoilt = n - 1;
    for (size_t i = 0; i < n; i++) {
        if (harm == 2 && i == spoilt) break;                                    // rows missing at the end
        size_t c = cols;
        if (harm == 1 && i == spoilt) c = below(cols);                         // a row too short
        std::string sep = below(4) ? " " : below(2) ? "\t" : "   ", l = below(5) ? "" : "  ";
        size_t x = harm == 3 && i == spoilt ? below(cols) : cols;              // a word that is no number
        for (size_t j = 0; j < c; j++) l += (j ? sep : "") + (j == x ? std::string("x1") : digits(bits));
        s += l + (below(6) ? "" : " ") + "\n";
    }
    if (below(3) == 0) s.pop_back();
    else if (harm != 2 && below(5) == 0) s += "zz after the rows\n";
    return s;
}
int main(int argc, char **argv) {
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM, SIGTRAP}) signal(s, died);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 4) return 2;
    prop = argv[2];
    char tmpl[] = "/tmp/vf_tables_XXXXXX";
    if (!mkdtemp(tmpl)) return 2;
    dir = tmpl;
    if (std::string(argv[1]) == "replay") { if (!run(argv[3])) return 2; }
    else if (prop == "T01") {
        for (const char *n : {"8_split_4", "8_split_7", "", "8_split_5", "8_split_3", "8_split_", "8_split_44", "8_split_4 ", " 8_split_4", "8_SPLIT_4", "_8_SPLIT_7", "8_split_7\n", "split_4", "x"}) table(n);
    } else {
        rng.seed(strtoull(argv[3], nullptr, 10) * 2654435761u + 7);
        int rounds = argc > 4 && std::string(argv[4]) == "thorough" ? 6000 : 1200;
        for (int i = 0; i < rounds; i++) {
            size_t bits = (size_t[]){61, 255, 381}[below(3)];
            text(some(below(8) ? 1 + below(4) : 1 + below(20), below(2) ? 0 : below(4), bits), 1);
        }
        for (int i = 0; i < rounds; i++) {
            size_t cols = below(8) ? 1 + below(4) : 1 + below(20), bits = (size_t[]){61, 255, 381}[below(3)];
            text(some(cols, below(2) ? 0 : below(4), bits), cols);
        }
        for (int i = 0; i < rounds / 2; i++) {
            size_t cols = 1 + below(3), n = below(5);
            std::vector<std::string> t; std::vector<bool> there;
            for (size_t k = 0; k < n; k++) { t.push_back(some(cols, below(3) ? 1 + below(3) : 0, 255)); there.push_back(below(3)); }
            if (n) files(t, there, cols);
        }
    }
    clear();
    printf("TRIED %ld NONTRIVIAL %ld\n", tried, nontriv);
    return any;
}
