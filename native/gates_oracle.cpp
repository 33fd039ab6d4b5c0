// Native oracle of M09: random histories of additions, merges and copies against a model set.
// search M09 <seed> <tier> | replay M09 <op...>
// ops: A<r><t><k> add, M<r><s> merge, C<r><s> copy, O<r><t><k> construct from one, N<r> new
#include <nil/blueprint/manifest.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include <random>
#include <csignal>
#include <unistd.h>
using namespace nil::blueprint;
static std::uint32_t weight(int t, int k) { return t == 2 ? 7 : std::uint32_t((t * 31 + k * 17 + 3) % 23 + (k == 5 ? 1000000000u : 0u)); }
template<int T> struct fam : component_gate_manifest {
    int k;
    fam(int v) : k(v) {}
    std::uint32_t gates_amount() const override { return weight(T, k); }
    bool operator<(const component_gate_manifest *o) const override { return k < dynamic_cast<const fam *>(o)->k; }
};
template<> struct fam<2> : component_gate_manifest {
    int k;
    fam(int v) : k(v) {}
    std::uint32_t gates_amount() const override { return weight(2, k); }
};
static std::string cur;
static void died(int s) { printf("AT %s\n", cur.c_str()); fflush(stdout); _exit(100 + s % 100); }
static bool run(const std::vector<std::string> &ops, bool print) {
    std::vector<gate_manifest *> g(3);
    std::vector<std::set<std::pair<int, int>>> m(3);
    for (auto &x : g) x = new gate_manifest();
    bool ok = true;
    cur.clear();
    for (auto &o : ops) { cur += o + " "; }
    std::string why;
    for (std::size_t i = 0; i < ops.size() && ok; i++) {
        const std::string &o = ops[i];
        int r = o[1] - '0';
        if (r < 0 || r > 2) { return true; }
        auto each = [&](auto f) { int t = o[2] - '0', k = o[3] - '0'; if (t == 0) f(fam<0>(k)); else if (t == 1) f(fam<1>(k)); else f(fam<2>(k)); };
        auto key = [&]() { int t = o[2] - '0', k = o[3] - '0'; return std::make_pair(t, t == 2 ? 0 : k); };
        if (o[0] == 'N') { delete g[r]; g[r] = new gate_manifest(); m[r].clear(); }
        else if (o[0] == 'O') { delete g[r]; each([&](auto f) { g[r] = new gate_manifest(f); }); m[r] = {key()}; }
        else if (o[0] == 'A') { gate_manifest *back = nullptr; each([&](auto f) { back = &g[r]->add(f); }); if (back != g[r]) { ok = false; why = "add returns another manifest"; } m[r].insert(key()); }
        else if (o[0] == 'M') { int s = o[2] - '0'; if (&g[r]->merge_with(*g[s]) != g[r]) { ok = false; why = "merge returns another manifest"; } auto c = m[s]; m[r].insert(c.begin(), c.end()); }
        else if (o[0] == 'C') { int s = o[2] - '0'; if (r != s) { delete g[r]; g[r] = new gate_manifest(*g[s]); m[r] = m[s]; } }
        for (int q = 0; q < 3 && ok; q++) {
            std::uint32_t want = 0;
            for (auto &p : m[q]) want += weight(p.first, p.second);
            if (g[q]->get_gates_amount() != want) { ok = false; why = "manifest " + std::to_string(q) + " reports " + std::to_string(g[q]->get_gates_amount()) + " gates, its families have " + std::to_string(want); }
        }
        if (!ok) why += " after operation " + std::to_string(i + 1);
    }
    for (auto x : g) delete x;
    if (!ok && print) printf("FAIL M09 %s:: %s\n", cur.c_str(), why.c_str());
    return ok;
}
int main(int c, char **v) {
    for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGFPE, SIGTRAP, SIGALRM}) signal(s, died);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (c > 3 && !strcmp(v[1], "replay")) { alarm(20); return run(std::vector<std::string>(v + 3, v + c), true) ? 0 : 1; }
    bool th = c > 4 && !strcmp(v[4], "thorough");
    alarm(th ? 900 : 200);
    std::mt19937 rng(atoi(v[3]));
    long tried = 0, non = 0;
    for (long n = 0; n < (th ? 400000 : 40000); n++) {
        std::vector<std::string> ops;
        int len = 1 + rng() % (n % 10 == 0 ? 40 : 8);
        int ks = 2 + rng() % 8;
        for (int i = 0; i < len; i++) {
            auto d = [&](int m) { return std::string(1, char('0' + rng() % m)); };
            switch (rng() % 10) {
            case 0: ops.push_back("N" + d(3)); break;
            case 1: ops.push_back("O" + d(3) + d(3) + d(ks)); break;
            case 2: ops.push_back("C" + d(3) + d(3)); break;
            case 3: case 4: ops.push_back("M" + d(3) + d(3)); break;
            default: ops.push_back("A" + d(3) + d(3) + d(ks));
            }
        }
        tried++; non += len > 2;
        if (!run(ops, false)) {      // shorten
            for (std::size_t i = 0; i < ops.size();) { auto o = ops; o.erase(o.begin() + i); if (!o.empty() && !run(o, false)) ops = o; else i++; }
            run(ops, true);
            printf("TRIED %ld NONTRIVIAL %ld\n", tried, non);
            return 1;
        }
    }
    printf("TRIED %ld NONTRIVIAL %ld\n", tried, non);
}
