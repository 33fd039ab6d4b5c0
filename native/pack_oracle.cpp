// Native oracle of H01 and H02: lists of tasks against the statements.
// search <prop> <seed> <tier> | replay <prop> <agents> <key>:<size> ...
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <list>
#include <map>
#include <random>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <nil/blueprint/detail/huang_lu.hpp>
typedef std::vector<std::pair<std::size_t, std::size_t>> tasks_t;
static std::string cur;
static long tried = 0, nontriv = 0;
static void died(int s) { printf("AT %s\n", cur.c_str()); fflush(stdout); _exit(100 + s % 100); }
static bool run(const std::string &prop, std::size_t agents, const tasks_t &t) {
    cur = std::to_string(agents);
    for (auto &p : t) cur += " " + std::to_string(p.first) + ":" + std::to_string(p.second);
    alarm(20);
    std::list<std::pair<std::size_t, std::size_t>> l(t.begin(), t.end());
    auto r = nil::blueprint::components::detail::huang_lu(l, agents);
    tried++;
    if (t.size() > 1 && agents > 1) nontriv++;
    std::string why;
    if (prop == "H01") {
        std::map<std::size_t, std::size_t> want(t.begin(), t.end()), have;
        for (auto &p : l) have.insert(p);
        if (l.size() != t.size() || have != want) why = "the list handed in was changed";
        for (auto &p : t) {
            auto it = r.find(p.first);
            if (it == r.end()) { why = "task " + std::to_string(p.first) + " is not assigned"; break; }
            if (it->second >= agents) { why = "task " + std::to_string(p.first) + " is assigned to agent " + std::to_string(it->second); break; }
        }
        if (why.empty() && r.size() != t.size()) why = "the assignment has " + std::to_string(r.size()) + " entries";
    } else {
        unsigned __int128 sum = 0; std::size_t big = 0;
        std::unordered_map<std::size_t, unsigned __int128> load;
        for (auto &p : t) { sum += p.second; big = std::max(big, p.second); auto it = r.find(p.first); if (it != r.end()) load[it->second] += p.second; }
        unsigned __int128 lb = std::max<unsigned __int128>((sum + agents - 1) / agents, big);
        if (lb) for (auto &p : load) if (p.second >= 2 * lb) why = "agent " + std::to_string(p.first) + " is loaded with " + std::to_string((unsigned long long)p.second) + ", the lower bound is " + std::to_string((unsigned long long)lb);
    }
    alarm(0);
    if (!why.empty()) printf("FAIL %s %s :: %s\n", prop.c_str(), cur.c_str(), why.c_str());
    return why.empty();
}
int main(int c, char **v) {
    for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGFPE, SIGTRAP, SIGALRM, SIGBUS}) signal(s, died);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (c < 3) return 2;
    std::string mode = v[1], prop = v[2];
    if (mode == "replay") {
        tasks_t t;
        for (int i = 4; i < c; i++) { char *e; std::size_t k = std::strtoull(v[i], &e, 10); t.push_back({k, *e == ':' ? std::strtoull(e + 1, nullptr, 10) : 0}); }
        return run(prop, c > 3 ? std::strtoull(v[3], nullptr, 10) : 1, t) ? 0 : 1;
    }
    std::mt19937_64 g(std::strtoull(v[3], nullptr, 10));
    bool thorough = c > 4 && !std::strcmp(v[4], "thorough");
    int bad = 0;
    auto one = [&](std::size_t a, const tasks_t &t) { if (bad < 5 && !run(prop, a, t)) bad++; };
    // every instance with up to five tasks of size up to five
    for (int n = 0; n <= 5; n++) {
        long all = 1; for (int i = 0; i < n; i++) all *= 6;
        for (long m = 0; m < all; m++)
            for (std::size_t a = 1; a <= 4; a++) { tasks_t t; long q = m; for (int i = 0; i < n; i++, q /= 6) t.push_back({std::size_t(7 * i + 3), std::size_t(q % 6)}); one(a, t); }
    }
    for (long n = 0; n < (thorough ? 400000 : 60000) && bad < 5; n++) {
        static const std::size_t tops[] = {1, 2, 3, 5, 10, 17, 100, 1000, std::size_t(1) << 20, (std::size_t(1) << 32) + 5, std::size_t(1) << 55};
        std::size_t top = tops[g() % 11], top2 = tops[g() % 11], len = g() % 3 ? g() % 12 : g() % 60, a = 1 + (g() % 4 ? g() % 6 : g() % 70);
        if (g() % 50 == 0) a = (std::size_t(1) << 40) + g() % 100;
        tasks_t t; std::map<std::size_t, bool> used;
        int kind = g() % 4;
        for (std::size_t i = 0; i < len; i++) {
            std::size_t k = kind == 0 ? i : kind == 1 ? g() : g() % 1000;
            if (used[k]) continue;
            used[k] = true;
            t.push_back({k, g() % 5 == 0 ? g() % (top2 + 1) : g() % (top + 1)});
        }
        // near the capacity of the agents: equal tasks and one over
        if (g() % 8 == 0) { t.clear(); std::size_t s = 1 + g() % (top + 1), cnt = 1 + a % 30 + g() % 3; for (std::size_t i = 0; i < cnt; i++) t.push_back({i, s}); if (g() % 2) t.push_back({cnt, s - g() % (s + 1)}); }
        one(a, t);
    }
    printf("TRIED %ld NONTRIVIAL %ld\n", tried, nontriv);
    return bad ? 1 : 0;
}
