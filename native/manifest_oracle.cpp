// Concrete oracle for the requirement ("manifest") algebra: runs the real code from /repo on concrete
// inputs and compares every answer with the mathematical meaning of a requirement (a set of amounts).
// Used to find and to replay failing inputs; never part of a proof.
//
//   manifest_oracle search <property> <seed> <quick|thorough>
//   manifest_oracle replay <property> <case...>
//
// Output: "FAIL <property> <case> :: <reason>" for the first failures, then "TRIED <n> NONTRIVIAL <m>".
#include <csetjmp>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <nil/blueprint/manifest.hpp>

using namespace nil::blueprint;
typedef std::uint32_t u32;
typedef std::shared_ptr<manifest_param> ptr;

struct P {    // description of a requirement, independent of the code under test
    char k = 'U';
    long a = 0, b = 0, s = 1;
    std::set<u32> e;
    bool mem(long x) const {
        switch (k) {
            case 'U': return false;
            case 'V': return x == a;
            case 'R': return x >= a && x < b && (x - a) % s == 0;
            default: return x >= 0 && x <= 0xffffffffL && e.count(u32(x)) != 0;
        }
    }
    bool sat() const { return k == 'V' || (k == 'R' && a < b) || (k == 'S' && !e.empty()); }
    long min() const { return k == 'S' ? long(*e.begin()) : a; }
    long max() const {
        if (k == 'S') return *e.rbegin();
        if (k == 'V') return a;
        return a + (b - 1 - a) / s * s;
    }
    ptr make() const {
        switch (k) {
            case 'U': return ptr(new manifest_unsat_param());
            case 'V': return ptr(new manifest_single_value_param(u32(a)));
            case 'R': return ptr(new manifest_range_param(a, b, s));
            default: return ptr(new manifest_set_param(e));
        }
    }
    std::string str() const {
        std::ostringstream o;
        o << k;
        if (k == 'V') o << ':' << a;
        if (k == 'R') o << ':' << a << ':' << b << ':' << s;
        if (k == 'S') { o << ':'; bool f = true; for (u32 v : e) { if (!f) o << ','; f = false; o << v; } }
        return o.str();
    }
    static P parse(const std::string &t) {
        P p; p.k = t[0];
        if (p.k == 'V') p.a = atol(t.c_str() + 2);
        if (p.k == 'R') sscanf(t.c_str() + 2, "%ld:%ld:%ld", &p.a, &p.b, &p.s);
        if (p.k == 'S' && t.size() > 2) {
            std::stringstream ss(t.substr(2)); std::string q;
            while (std::getline(ss, q, ',')) if (!q.empty()) p.e.insert(u32(atol(q.c_str())));
        }
        return p;
    }
};
static P V(long v) { P p; p.k = 'V'; p.a = v; return p; }
static P R(long a, long b, long s) { P p; p.k = 'R'; p.a = a; p.b = b; p.s = s; return p; }
static P S(std::set<u32> e) { P p; p.k = 'S'; p.e = std::move(e); return p; }

static sigjmp_buf env;
static long tried = 0, nontrivial = 0, fails = 0;
static std::string current;
static bool small_case = true;
static double case_start = 0, deadline = 1e9;
static double cpu() { return double(clock()) / CLOCKS_PER_SEC; }
static void on_signal(int sig) {
    if (sig == SIGPROF) {    // a tick of CPU time: has the case hung, is the search over?
        if (cpu() - case_start > 10) siglongjmp(env, small_case ? 2 : 3);
        if (cpu() > deadline) siglongjmp(env, 3);
        return;
    }
    siglongjmp(env, 1);
}
static void fail(const std::string &prop, const std::string &c, const std::string &why) {
    fails++;
    if (fails <= 20) std::cout << "FAIL " << prop << " " << c << " :: " << why << std::endl;
}
// A requirement returned by the code is observed through its strict check only.
static bool obs(const ptr &r, long x) { return r->check_manifest_param(u32(x), true); }
static std::string show(const ptr &r) { std::ostringstream o; o << *r; return o.str(); }
static const long MAXI = 0x7fffffffL, MAXU = 0xffffffffL;

static void points(const P &p, std::set<long> &xs) {
    auto add = [&](long v) { for (long d = -2; d <= 2; d++) if (v + d >= 0 && v + d <= MAXU) xs.insert(v + d); };
    if (p.k == 'V') add(p.a);
    if (p.k == 'R') { add(p.a); add(p.b); add(p.a + p.s); add(p.b - p.s); if (p.a < p.b) add(p.max()); }
    if (p.k == 'S') { for (u32 v : p.e) add(v); }
}
static bool crash_guard(const std::string &prop, const std::string &c, void (*f)(const std::string &, const std::vector<std::string> &), const std::vector<std::string> &args) {
    current = c;
    case_start = cpu();
    int j = sigsetjmp(env, 1);
    if (j == 0) { f(prop, args); return true; }
    if (j == 3) { std::cout << "TRIED " << tried << " NONTRIVIAL " << nontrivial << std::endl; _exit(fails ? 1 : 0); }
    fail(prop, c, j == 2 ? "the code under test does not finish" : "the code under test aborted or had undefined behaviour");
    if (j == 2) { std::cout << "TRIED " << tried << " NONTRIVIAL " << nontrivial << std::endl; _exit(1); }
    return false;
}

static bool big;    // large amounts: evaluate on interesting points only
static void cand(const P &a, const P &b, std::set<long> &xs) {
    for (long x = 0; x <= 24; x++) xs.insert(x);
    points(a, xs); points(b, xs);
    xs.insert(MAXI); xs.insert(MAXI + 1); xs.insert(MAXU);
    if (a.k == 'R' && b.k == 'R') {
        long lo = std::max(a.a, b.a), hi = std::min(a.b, b.b); int n = 0;
        for (long x = a.a + (lo - a.a + a.s - 1) / a.s * a.s; x < hi && n < 200; x += a.s, n++) xs.insert(x);
    }
}
static bool is_param(const std::string &s) { return !s.empty() && (s == "U" || ((s[0] == 'V' || s[0] == 'R' || s[0] == 'S') && s.size() > 1 && s[1] == ':')); }
static bool in_scope_size(const std::vector<std::string> &t) {
    for (auto &s : t) if (is_param(s)) { P p = P::parse(s); if (p.k == 'R' && p.s > 0 && (p.b - p.a) / p.s > 100000) return false; }
    return true;
}
// the quantifier of the property
static bool in_scope(const std::string &prop, const std::vector<std::string> &t) {
    std::vector<P> ps;
    for (auto &s : t) if (is_param(s)) ps.push_back(P::parse(s));
    for (auto &p : ps) if (p.k == 'R' && (p.a < 0 || p.b < 0 || p.s < 1 || p.a + p.s > MAXI || p.b + p.s > MAXI)) return false;
    if (prop == "M01" && ps.size() == 2 && ps[0].k == 'R' && ps[1].k == 'R' && ps[0].s != ps[1].s &&
        __int128(std::max(ps[0].a, ps[1].a) + 1) * ps[0].s * ps[1].s * 2 > MAXI) return false;
    if (prop == "M03" && ps.size() == 2) {
        long st = 0;
        for (auto &p : ps) if (p.k == 'R') st = std::max(st, p.s);
        for (auto &p : ps) {
            if (p.k == 'V' && p.a + st > MAXI) return false;
            if (p.k == 'R' && (p.a + st > MAXI || p.b + st > MAXI)) return false;
            if (p.k == 'S' && !p.e.empty() && long(*p.e.rbegin()) + st > MAXI) return false;
        }
    }
    return true;
}
static void do_case(const std::string &prop, const std::vector<std::string> &t) {
    tried++;
    std::string c;
    for (auto &s : t) { if (!c.empty()) c += ' '; c += s; }
    auto bad = [&](const std::string &w) { fail(prop, c, w); };
    small_case = in_scope_size(t);
    if (!in_scope(prop, t)) return;
    if (prop == "M01" || prop == "M03") {
        P a = P::parse(t[0]), b = P::parse(t[1]);
        if (a.sat() && b.sat()) nontrivial++;
        std::set<long> xs; cand(a, b, xs);
        if (prop == "M01") {
            ptr r = a.make()->intersect(b.make());
            for (long x : xs) if (obs(r, x) != (a.mem(x) && b.mem(x))) { bad("amount " + std::to_string(x) + " is " + (obs(r, x) ? "" : "not ") + "admitted by " + show(r)); return; }
        } else {
            ptr r = a.make()->merge_with(b.make()), q = b.make()->merge_with(a.make());
            bool sat = a.sat() && b.sat(), any = false, anyq = false;
            for (long x : xs) {
                bool o = obs(r, x), oq = obs(q, x);
                any |= o; anyq |= oq;
                if (o != oq) { bad("order matters at amount " + std::to_string(x) + ": " + show(r) + " / " + show(q)); return; }
                if (o && !sat) { bad("unsatisfiable operand, but " + std::to_string(x) + " admitted by " + show(r)); return; }
                if (o && (x < a.min() || x < b.min())) { bad("admits " + std::to_string(x) + ", too small: " + show(r)); return; }
                if (o && !a.mem(x) && !b.mem(x)) { bad("admits " + std::to_string(x) + ", which neither operand admits: " + show(r)); return; }
            }
            if (!big && sat && (!any || !r->is_satisfiable())) { bad("both satisfiable but the merge is not: " + show(r)); return; }
        }
    } else if (prop == "M02") {
        P a = P::parse(t[0]), b = P::parse(t[1]);
        if (a.sat() && b.sat()) nontrivial++;
        std::set<long> xs; cand(a, b, xs);
        ptr r = a.make()->subtract(b.e);
        for (long x : xs) if (obs(r, x) != (a.mem(x) && !b.mem(x))) { bad("amount " + std::to_string(x) + " is " + (obs(r, x) ? "" : "not ") + "admitted by " + show(r)); return; }
    } else if (prop == "M04") {
        P a = P::parse(t[0]); long x = atol(t[1].c_str());
        if (a.sat()) nontrivial++;
        ptr p = a.make();
        if (p->check_manifest_param(u32(x), true) != a.mem(x)) { bad("strict check of " + t[1]); return; }
        if (x <= MAXI && p->check_manifest_param(u32(x), false) != (a.sat() && a.min() <= x)) { bad("lenient check of " + t[1]); return; }
    } else if (prop == "M05") {
        P a = P::parse(t[0]);
        if (a.sat()) nontrivial++;
        ptr p = a.make();
        if (p->is_satisfiable() != a.sat()) { bad("satisfiability reported wrongly"); return; }
        if (a.sat() && long(p->max_value_if_sat()) != a.max()) { bad("largest amount reported as " + std::to_string(p->max_value_if_sat())); return; }
    } else if (prop == "M06") {
        P a = P::parse(t[0]);
        if (a.sat()) nontrivial++;
        std::vector<long> want;
        if (a.k == 'V') want.push_back(a.a);
        if (a.k == 'R') for (long x = a.a; x < a.b; x += a.s) want.push_back(x);
        if (a.k == 'S') for (u32 v : a.e) want.push_back(v);
        ptr p = a.make();
        std::size_t i = 0;
        auto it = p->begin(); auto e = p->end();
        for (; it != e; ++it) {
            if (i >= want.size()) { bad("yields more amounts than admitted"); return; }
            if (long(*it) != want[i]) { bad("yields " + std::to_string(*it) + " as amount number " + std::to_string(i)); return; }
            i++;
        }
        if (i != want.size()) bad("yields only " + std::to_string(i) + " amounts");
        if (!(it == e)) bad("end reached but not equal to end");
        i = 0;
        for (auto jt = p->begin(); jt != p->end(); i++) {
            auto before = jt; auto old = jt++;
            if (!(old == before)) { bad("post-increment does not return the old position"); return; }
            if (i >= want.size() || long(*old) != want[i]) { bad("post-increment yields a wrong amount"); return; }
        }
        if (i != want.size()) bad("post-increment yields only " + std::to_string(i) + " amounts");
    } else if (prop == "M07") {
        int x = atoi(t[1].c_str()), y = atoi(t[2].c_str());
        nontrivial++;
        using L = manifest_lookup_type; using C = manifest_constant_type;
        if (t[0] == "LI" || t[0] == "LM") {
            L l[4] = {L::type::NONE, L::type::UNSAT, L::type::REQUIRED, L::type::OPTIONAL};
            enum { N, U, Q, O };
            int want;
            if (t[0] == "LI")
                want = (x == U || y == U || (x == Q && y == N) || (x == N && y == Q)) ? U : (x == Q || y == Q) ? Q : (x == N || y == N) ? N : O;
            else
                want = (x == U || y == U) ? U : (x == Q || y == Q) ? Q : (x == O || y == O) ? O : N;
            L r = t[0] == "LI" ? l[x].intersect(l[y]) : l[x].merge_with(l[y]);
            if (!(r == l[want])) bad("result is kind " + std::to_string(int(r.t)));
        } else if (t[0] == "CM") {
            C l[3] = {C::type::NONE, C::type::UNSAT, C::type::REQUIRED};
            int want = (x == 1 || y == 1) ? 1 : (x == 2 || y == 2) ? 2 : 0;
            C r = l[x].merge_with(l[y]);
            if (!(r == l[want])) bad("result is kind " + std::to_string(int(r.t)));
        } else {
            C l[3] = {C::type::NONE, C::type::UNSAT, C::type::REQUIRED};
            int want = (x == 1 || (x == 2 && y == 0)) ? 1 : x == 2 ? 2 : 0;
            C r = l[x].intersect(compiler_manifest(15, y != 0));
            if (!(r == l[want])) bad("result is kind " + std::to_string(int(r.t)));
        }
    } else if (prop == "M08") {
        // P const witness constant max how other
        P a = P::parse(t[0]); int k = atoi(t[1].c_str()); long w = atol(t[2].c_str()), c = atol(t[3].c_str()), mx = atol(t[4].c_str());
        int how = atoi(t[5].c_str());
        P o = P::parse(t[6]); int k2 = atoi(t[7].c_str());
        if (a.sat()) nontrivial++;
        using C = manifest_constant_type;
        C l[3] = {C::type::NONE, C::type::UNSAT, C::type::REQUIRED};
        plonk_component_manifest m(a.make(), l[k]);
        bool cok = k == 0 || (k == 2 && c != 0);
        if (m.check_manifest(w, c, true) != (a.mem(w) && cok)) { bad("strict acceptance"); return; }
        if (m.check_manifest(w, c, false) != (a.sat() && a.min() <= w && cok)) { bad("lenient acceptance"); return; }
        if (m.check_manifest(w, c) != (a.sat() && a.min() <= w && cok)) { bad("default acceptance"); return; }
        if (m.is_satisfiable() != (a.sat() && k != 1)) { bad("satisfiability"); return; }
        plonk_component_manifest mcopy(m);
        if (mcopy.check_manifest(w, c, true) != (a.mem(w) && cok)) { bad("strict acceptance of a copy"); return; }
        bool offered = c != 0;
        compiler_manifest cm(how ? 3 : mx, offered);
        if (how) cm.set_max_witness_amount(mx);
        if (long(cm.get_max_witness_amount()) != mx) { bad("maximum reported wrongly"); return; }
        if (k == 1 || (k == 2 && !offered)) {
            if (cm.intersect(m).is_satisfiable()) { bad("restricted manifest satisfiable without the constant column"); return; }
        } else {
            auto r = cm.intersect(m);
            std::set<long> xs; cand(a, V(mx), xs);
            bool any = false;
            for (long x : xs) {
                bool want = a.mem(x) && x <= mx; any |= want;
                if (r.check_manifest(x, c, true) != want) { bad("restricted manifest wrong at witness amount " + std::to_string(x)); return; }
            }
            if (any && !r.is_satisfiable()) { bad("restricted manifest wrongly unsatisfiable"); return; }
            // without a constant column the need, not the offer, decides
            if (r.check_manifest(w, 0, true) != (k == 0 && a.mem(w) && w <= mx)) { bad("constant need of the restricted manifest"); return; }
        }
        plonk_component_manifest m2(o.make(), l[k2]);
        auto g = m.merge_with(m2);
        ptr wm = a.make()->merge_with(o.make());
        int kk = (k == 1 || k2 == 1) ? 1 : (k == 2 || k2 == 2) ? 2 : 0;
        std::set<long> xs; cand(a, o, xs);
        for (long x : xs) for (int cc = 0; cc < 2; cc++)
            if (g.check_manifest(x, cc, true) != (obs(wm, x) && (kk == 0 || (kk == 2 && cc)))) { bad("merged manifest wrong at witness amount " + std::to_string(x)); return; }
    }
}

int main(int argc, char **argv) {
    for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGFPE, SIGTRAP, SIGPROF}) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, nullptr);
    }
    freopen("/dev/null", "w", stderr);
    std::string mode = argv[1], prop = argv[2];
    auto run = [&](std::vector<std::string> t) {
        std::string c; for (auto &s : t) { if (!c.empty()) c += ' '; c += s; }
        crash_guard(prop, c, do_case, t);
        return fails == 0;
    };
    struct itimerval it; it.it_interval.tv_sec = 0; it.it_interval.tv_usec = 500000; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
    if (mode == "replay") {
        std::vector<std::string> t(argv + 3, argv + argc);
        run(t);
        std::cout << "TRIED " << tried << " NONTRIVIAL " << nontrivial << std::endl;
        return fails ? 1 : 0;
    }
    unsigned seed = atoi(argv[3]); bool thorough = !strcmp(argv[4], "thorough");
    deadline = thorough ? 600 : 100;
    std::mt19937 rng(seed);
    auto rnd = [&](long lo, long hi) { return lo + long(rng() % (unsigned long)(hi - lo + 1)); };
    std::vector<P> all;
    all.push_back(P());
    for (int v = 0; v < 8; v++) all.push_back(V(v));
    for (int a = 0; a < 6; a++) for (int b = 0; b < 11; b++) for (int s = 1; s < 6; s++) all.push_back(R(a, b, s));
    for (int m = 0; m < 128; m++) { std::set<u32> e; for (int i = 0; i < 7; i++) if (m >> i & 1) e.insert(i); all.push_back(S(e)); }
    auto rparam = [&](long lim) {
        int k = rnd(0, 8);
        if (k == 0) return V(rnd(0, lim));
        if (k <= 4) { long a = rnd(0, lim), b = rnd(0, lim); if (k <= 3 && a > b) std::swap(a, b); return R(a, b, rnd(1, rnd(0, 3) ? 12 : lim)); }
        std::set<u32> e; long base = rnd(0, lim), st = rnd(1, 9); int n = rnd(0, 12);
        for (int i = 0; i < n; i++) e.insert(u32(rnd(0, 1) ? base + i * st : rnd(0, lim)));
        return S(e);
    };
    long N = thorough ? 2000000 : 200000;
    auto cap = [&]() { return fails >= 20; };
    if (prop == "M01" || prop == "M03") {
        for (auto &a : all) for (auto &b : all) { run({a.str(), b.str()}); if (cap()) goto out; }
        for (long i = 0; i < N && !cap(); i++) { P a = rparam(rnd(0, 1) ? 30 : 120), b = rparam(rnd(0, 1) ? 30 : 120);
            // the property is stated for products that fit
            long p = std::max(a.a, b.a) * a.s * b.s * 2; if (a.k == 'R' && b.k == 'R' && p > MAXI) continue;
            run({a.str(), b.str()}); }
        big = true;
        for (long i = 0; i < N / (prop == "M03" ? 100 : 4) && !cap(); i++) {
            auto bp = [&]() { int k = rnd(0, 5); long a = rnd(0, 40000), b = rnd(0, 40000); if (a > b) std::swap(a, b);
                if (k == 0) return V(rnd(0, 1) ? rnd(0, 40000) : rnd(MAXI - 3, MAXU)); if (k < 5) return R(a, b, rnd(1, 12));
                std::set<u32> e; for (int j = 0; j < 4; j++) e.insert(u32(rnd(0, 1) ? rnd(0, 40000) : rnd(MAXI - 3, MAXU))); return S(e); };
            P a = bp(), b = bp();
            if (prop == "M03" && ((a.k == 'V' && a.a >= MAXI - 100) || (b.k == 'V' && b.a >= MAXI - 100))) continue;
            if (prop == "M03" && ((a.k == 'S' && *a.e.rbegin() >= MAXI - 100) || (b.k == 'S' && *b.e.rbegin() >= MAXI - 100))) continue;
            run({a.str(), b.str()});
        }
    } else if (prop == "M02") {
        for (auto &a : all) for (auto &b : all) if (b.k == 'S') { run({a.str(), b.str()}); if (cap()) goto out; }
        for (long i = 0; i < N && !cap(); i++) {
            P a = rparam(rnd(0, 1) ? 30 : 300); std::set<u32> e;
            int m = rnd(0, 3);
            if (a.k == 'R' && a.sat() && m) {    // contiguous runs at the ends
                long cnt = (a.max() - a.a) / a.s + 1; long f = m & 1 ? rnd(0, cnt) : 0, l = m & 2 ? rnd(0, cnt) : 0;
                for (long j = 0; j < f; j++) e.insert(a.a + j * a.s);
                for (long j = 0; j < l; j++) e.insert(a.max() - j * a.s);
                if (rnd(0, 3) == 0) e.insert(rnd(0, 300));
            } else for (int j = 0; j < 8; j++) e.insert(rnd(0, 300));
            run({a.str(), S(e).str()});
        }
    } else if (prop == "M04") {
        for (auto &a : all) for (int x = 0; x < 26; x++) { run({a.str(), std::to_string(x)}); if (cap()) goto out; }
        for (long i = 0; i < N && !cap(); i++) {
            long lim = rnd(0, 2) == 0 ? MAXI : rnd(0, 1) ? 40 : 1000; P a = rparam(lim); std::set<long> xs; points(a, xs);
            for (long x : {0L, 1L, MAXI - 1, MAXI, MAXI + 1, MAXU - 1, MAXU}) xs.insert(x);
            xs.insert(rnd(0, lim));
            for (long x : xs) { run({a.str(), std::to_string(x)}); if (cap()) goto out; }
        }
    } else if (prop == "M05" || prop == "M06") {
        for (auto &a : all) { run({a.str()}); if (cap()) goto out; }
        for (int a = 0; a < 16; a++) for (int b = 0; b < 40; b++) for (int s = 1; s < 20; s++) { run({R(a, b, s).str()}); if (cap()) goto out; }
        for (long i = 0; i < N && !cap(); i++) {
            P a = rparam(prop == "M06" ? 300 : rnd(0, 1) ? 1000 : 1000000000); run({a.str()});
        }
        for (long i = 0; i < 1000 && !cap(); i++) { long st = rnd(1, 400000000); long a = rnd(0, 1000000000), b = rnd(0, 1000000000); run({R(a, b, prop == "M06" ? st / 8 + 1000000 : st).str()}); }
        if (prop == "M06") for (long i = 0; i < 1000 && !cap(); i++) { long b = rnd(0, MAXI); run({R(std::max(0L, b - rnd(0, 200)), b, rnd(1, 9)).str()}); }
    } else if (prop == "M07") {
        for (std::string k : {"LI", "LM"}) for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) run({k, std::to_string(x), std::to_string(y)});
        for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) run({"CM", std::to_string(x), std::to_string(y)});
        for (int x = 0; x < 3; x++) for (int y = 0; y < 2; y++) run({"CI", std::to_string(x), std::to_string(y)});
    } else if (prop == "M08") {
        for (auto &a : all) for (int k = 0; k < 3; k++) for (int c = 0; c < 2; c++) for (int mx : {0, 1, 3, 4, 7, 9}) for (int how = 0; how < 2; how++) {
            run({a.str(), std::to_string(k), std::to_string(rnd(0, 9)), std::to_string(c), std::to_string(mx), std::to_string(how), all[rnd(0, all.size() - 1)].str(), std::to_string(rnd(0, 2))});
            if (cap()) goto out;
        }
        for (long i = 0; i < N / 2 && !cap(); i++)
            run({rparam(40).str(), std::to_string(rnd(0, 2)), std::to_string(rnd(0, 60)), std::to_string(rnd(0, 2) ? rnd(0, 1) : rnd(0, 5)), std::to_string(rnd(0, 60)), std::to_string(rnd(0, 1)), rparam(40).str(), std::to_string(rnd(0, 2))});
    }
out:
    std::cout << "TRIED " << tried << " NONTRIVIAL " << nontrivial << std::endl;
    return fails ? 1 : 0;
}
