// Native oracle of L01: every row of every built-in lookup table against its definition.
// search <prop> <seed> <tier> | replay <prop> table:<table>/<part>
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <boost/multiprecision/cpp_int.hpp>
namespace mp = boost::multiprecision;
struct field {
    typedef mp::number<mp::cpp_int_backend<128, 128, mp::unsigned_magnitude, mp::unchecked, void>> integral_type;
    static constexpr std::size_t modulus_bits = 127, number_bits = 127;
    struct value_type {
        integral_type data;
        value_type() {}
        value_type(const integral_type &x) : data(x) {}
        template<class T, class = typename std::enable_if<std::is_integral<T>::value>::type> value_type(T x) : data(x) {}
        value_type pow(std::size_t k) const { return value_type(integral_type(mp::pow(data, (unsigned)k))); }
        friend bool operator==(const value_type &a, const value_type &b) { return a.data == b.data; }
    };
};
#include <nil/blueprint/lookup_library.hpp>
typedef unsigned long U;
typedef std::vector<U> row;
static std::string cur;
static void died(int s) { std::string m = "AT " + cur + "\n"; if (write(1, m.data(), m.size())) {} _exit(128 + s); }
static U value(U y, U from, U to, bool (*bit)(U)) { U r = 0, p = 1; for (; y; y /= from, p *= to) r += bit(y % from) * p; return r; }
static bool odd(U d) { return d & 1; }
static bool maj(U d) { return d >= 2; }
static bool ch(U d) { return d == 3 || d == 5 || d == 6; }
static std::vector<row> meant(const std::string &t) {
    std::vector<row> r;
    if (t == "byte_range_table") for (U y = 0; y < 256; y++) r.push_back({y});
    if (t == "chunk_16_bits") for (U y = 0; y < 65536; y++) r.push_back({y});
    if (t == "binary_xor_table") for (U a = 0; a < 2; a++) for (U b = 0; b < 2; b++) r.push_back({a, b, a ^ b});
    if (t == "binary_and_table") for (U a = 0; a < 2; a++) for (U b = 0; b < 2; b++) r.push_back({a, b, a & b});
    if (t == "zkevm_opcodes") {
        static const U s[][2] = {{0, 0xb}, {0x10, 0x1d}, {0x20, 0x20}, {0x30, 0x3f}, {0x40, 0x4a}, {0x50, 0xa4}, {0xf0, 0xf5}, {0xfa, 0xfa}, {0xfd, 0xff}};
        for (auto &x : s) for (U y = x[0]; y <= x[1]; y++) r.push_back({y, y >= 0x60 && y <= 0x7f ? y - 0x5f : 0, 1});
        r.push_back({0, 0, 0});
    }
    if (t == "sha256_sparse_base4") for (U y = 0; y < 16384; y++) r.push_back({y, value(y, 2, 4, odd)});
    if (t == "sha256_sparse_base7") for (U y = 0; y < 16384; y++) r.push_back({y, value(y, 2, 7, odd)});
    if (t == "sha256_maj") for (U y = 0; y < 65536; y++) r.push_back({value(y, 4, 2, maj), y});
    if (t == "sha256_ch") for (U y = 0; y < 5764801; y++) r.push_back({value(y, 7, 2, ch), y});
    if (t == "sha256_reverse_sparse_base4") for (U y = 0; y < 65536; y++) r.push_back({value(y, 4, 2, odd), y});
    if (t == "sha256_reverse_sparse_base7") {
        std::set<U> all;           // digits: sums of three bits, two of them from one word five places apart
        for (U x = 0; x < 8192; x++) for (U y = 0; y < 256; y++) { U v = 0; for (int k = 8; k-- > 0;) v = v * 7 + (x >> k & 1) + (x >> (k + 5) & 1) + (y >> k & 1); all.insert(v); }
        for (U v : all) r.push_back({value(v, 7, 2, odd), v});
    }
    std::sort(r.begin(), r.end());
    return r;
}
static U rows = 0;
static std::string run(const std::string &name) {
    std::string table = name.substr(0, name.find('/')), part = name.substr(name.find('/') + 1);
    nil::blueprint::lookup_library<field> l;
    l.reserve_table(name);
    const auto &all = l.get_reserved_tables();
    if (all.size() != 1 || all.begin()->first != table) return "other tables than the one asked for are reserved";
    auto t = all.begin()->second;
    const auto &g = t->get_table();
    std::vector<row> want = meant(table), got;
    std::size_t cols = want[0].size();
    if (g.size() != cols) return "the table has " + std::to_string(g.size()) + " columns instead of " + std::to_string(cols);
    for (auto &c : g) if (c.size() != want.size()) return "a column has " + std::to_string(c.size()) + " rows instead of " + std::to_string(want.size());
    for (std::size_t i = 0; i < want.size(); i++) { row r; for (auto &c : g) { if (c[i].data > 0xffffffffffffffffull) return "row " + std::to_string(i) + " holds too large a number"; r.push_back((U)c[i].data); } got.push_back(r); }
    std::sort(got.begin(), got.end());
    for (std::size_t i = 0; i < want.size(); i++) if (got[i] != want[i]) { std::string e = "the row"; for (U x : want[i]) e += " " + std::to_string(x); e += " of the relation and the row"; for (U x : got[i]) e += " " + std::to_string(x); return e + " of the table differ (both sorted)"; }
    rows += want.size();
    if (t->subtables.size() != 1 || t->subtables.begin()->first != part) return "other parts than the one asked for are reserved";
    auto &u = t->subtables.begin()->second;
    std::vector<std::size_t> c;
    if (part == "full") for (std::size_t i = 0; i < cols; i++) c.push_back(i); else c.push_back(part == "second_column" ? 1 : 0);
    if (std::vector<std::size_t>(u.column_indices.begin(), u.column_indices.end()) != c) return "the part has the wrong columns";
    if (u.begin != 0 || u.end != want.size() - 1) return "the part covers the rows " + std::to_string(u.begin) + " to " + std::to_string(u.end);
    return "";
}
int main(int argc, char **argv) {
    for (int n : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGTRAP}) signal(n, died);
    int fails = 0;
    auto go = [&](const std::string &n) { cur = "table:" + n; std::string e; try { e = run(n); } catch (std::exception &x) { e = std::string("exception ") + x.what(); } if (!e.empty()) { fails++; printf("FAIL L01 table:%s :: %s\n", n.c_str(), e.c_str()); } };
    if (!strcmp(argv[1], "replay")) { go(std::string(argv[3]).substr(6)); return fails ? 1 : 0; }
    for (auto n : {"byte_range_table/full", "chunk_16_bits/full", "binary_xor_table/full", "binary_and_table/full", "zkevm_opcodes/full", "zkevm_opcodes/opcodes_only", "sha256_sparse_base4/full", "sha256_sparse_base4/first_column",
                   "sha256_sparse_base7/full", "sha256_sparse_base7/first_column", "sha256_sparse_base7/second_column", "sha256_reverse_sparse_base4/full", "sha256_reverse_sparse_base7/full", "sha256_maj/full", "sha256_maj/first_column", "sha256_ch/full"}) go(n);
    printf("TRIED %lu NONTRIVIAL %lu\n", rows, rows);
    return fails ? 1 : 0;
}
