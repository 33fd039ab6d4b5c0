// What a gadget promises, and the three ways its real code is run: with unknowns as values (to write down the
// obligations), with numbers (to look for failing inputs), and with given cells (to look for wrong results that pass).
#pragma once
#include "fields.hpp"
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <random>
#include <sstream>
#include <unistd.h>
#define CRYPTO3_BLUEPRINT_BASIC_NON_NATIVE_POLICY_HPP      // only its native part is used, given here
#include <nil/crypto3/plonk_standin.hpp>
namespace nil { namespace blueprint {
    template<typename F> struct basic_non_native_policy {
        template<typename O> struct field { static constexpr std::uint32_t ratio = 1; typedef crypto3::zk::snark::plonk_variable<typename F::value_type> value_type; };
    };
} }
#include <nil/blueprint/blueprint/plonk/assignment.hpp>
#include <nil/blueprint/blueprint/plonk/circuit.hpp>

std::uint64_t vf::prime = 2305843009213693951ull;
vf::world *vf::W = nullptr;

namespace vf {
using namespace nil::blueprint;
template<typename F> using arith = nil::crypto3::zk::snark::plonk_constraint_system<F>;
template<typename F> using var_of = nil::crypto3::zk::snark::plonk_variable<typename F::value_type>;
typedef std::vector<std::uint32_t> cols;
typedef std::vector<int> config;
template<typename T> struct clauses : std::vector<std::vector<std::pair<T, bool>>> {     // and of or of (value, zero?)
    clauses &zero(const T &a) { this->push_back({{a, true}}); return *this; }
    clauses &nonzero(const T &a) { this->push_back({{a, false}}); return *this; }
    clauses &any(std::vector<std::pair<T, bool>> c) { this->push_back(c); return *this; }
    clauses &bit(const T &a) { return zero(a * (a - T(1))); }
};
const std::size_t witnesses = 24, constants = 3, selectors = 120, spare = 3;

template<typename F> struct site {                         // where a gadget is put, and the table it is put in
    typedef typename F::value_type T;
    typedef var_of<F> var;
    circuit<arith<F>> bp;
    assignment<arith<F>> as;
    std::size_t start;
    cols w, c;
    std::vector<var> in;
    std::vector<T> val, par;                               // input values, parameters that are field elements
    config cfg;
    site(const config &cfg, int placement, std::size_t ins, const std::vector<T> &v, const std::vector<T> &p) : as(witnesses, 1, constants, selectors), start(placement ? 3 : 0), val(v), par(p), cfg(cfg) {
        for (std::size_t i = 0; i < (std::size_t)cfg[0]; i++) w.push_back(placement ? cfg[0] - i : i);
        for (std::size_t i = 0; i < constants; i++) c.push_back(placement ? constants - 1 - i : i);
        for (std::size_t i = 0; i < ins; i++) { in.push_back(var(0, i, false, var::column_type::public_input)); as.public_input(0, i) = v[i]; }
    }
};
template<typename F> struct outcome {                      // after a run
    std::shared_ptr<site<F>> s;
    std::vector<var_of<F>> outs;                           // from generate_circuit
    std::vector<std::string> flaws;                        // results differ, cells or rows that are not the gadget's
    std::size_t rows;
    bool agree = true;
};

template<typename T> std::string cellname(int type, std::size_t i, long row) { return std::string(type == 0 ? "w" : type == 1 ? "p" : type == 2 ? "c" : "s") + std::to_string(i) + "_" + (row < 0 ? "m" + std::to_string(-row) : std::to_string(row)); }

// ---- one run of the real code
template<typename G, typename F> outcome<F> build(const config &cfg, int placement, const std::vector<typename F::value_type> &v, const std::vector<typename F::value_type> &par, bool fill) {
    typedef typename F::value_type T;
    outcome<F> o;
    o.s = std::make_shared<site<F>>(cfg, placement, G::ins(cfg), v, par);
    site<F> &s = *o.s;
    auto made = G::template make<F>(s);
    auto &c = made.first;
    auto &in = made.second;
    o.rows = c.rows_amount;
    auto r = generate_circuit(c, s.bp, s.as, in, s.start);
    for (var_of<F> &x : r.all_vars()) o.outs.push_back(x);
    for (std::size_t g = 0; g < selectors; g++)
        for (std::size_t k = 0; k < s.as.selector_column_size(g); k++)
            if ((k < s.start || k >= s.start + o.rows) && !(s.as.cell(3, g, k).data == T(0).data)) o.flaws.push_back("selector " + std::to_string(g) + " enabled on row " + std::to_string(k) + ", not one of the gadget's");
    if (!fill) return o;
    std::map<std::pair<std::size_t, std::size_t>, T> before;
    for (std::size_t i = 0; i < witnesses; i++)
        for (std::size_t k = 0; k < s.start + o.rows + spare; k++) {
            std::size_t at = i * 100 + k;
            T stale = W ? T() : T(at + 1000);              // something left over from before
            s.as.witness(i, k) = stale;
            before[{i, k}] = stale;
        }
    auto q = generate_assignments(c, s.as, in, s.start);
    std::vector<var_of<F>> outs;
    for (var_of<F> &x : q.all_vars()) outs.push_back(x);
    if (outs != o.outs) { o.agree = false; o.flaws.push_back("the result variables of the circuit and of the assignment differ"); }
    for (std::size_t i = 0; i < witnesses; i++) {
        bool own = std::find(s.w.begin(), s.w.end(), i) != s.w.end();
        for (std::size_t k = 0; k < s.as.witness_column_size(i); k++) {
            if (own && k >= s.start && k < s.start + o.rows) continue;
            auto it = before.find({i, k});
            if (it == before.end() || !(s.as.cell(0, i, k).data == it->second.data)) o.flaws.push_back("writes cell (" + std::to_string(i) + ", " + std::to_string(k) + "), not one of the gadget's");
        }
    }
    return o;
}
// value-only mode, for gadgets that have it
template<typename G, typename F> std::vector<typename F::value_type> only_values(const config &cfg, int placement, const std::vector<typename F::value_type> &v, const std::vector<typename F::value_type> &par) {
    std::vector<typename F::value_type> r;
    if constexpr (G::has_empty) {
        site<F> s(cfg, placement, G::ins(cfg), v, par);
        auto made = G::template make<F>(s);
        auto q = generate_empty_assignments(made.first, s.as, made.second, s.start);
        for (var_of<F> &x : q.all_vars()) r.push_back(var_value(s.as, x));
    }
    return r;
}

// ---- the constraints on a table of unknown cells
struct cell_table {
    std::map<std::string, int> &at;
    const site<sf> &s;
    std::size_t rows_amount() const { return 0; }
    sym cell(int type, std::size_t i, long row) const {
        if (type == 2 || type == 3) return row < 0 ? sym(0) : s.as.cell(type, i, row);
        if (type == 1) { if (row >= 0 && (std::size_t)row < s.val.size() && i == 0) return s.val[row]; }
        std::string n = cellname<sym>(type, i, row);
        auto it = at.find(n);
        if (it == at.end()) it = at.emplace(n, W->fresh(n)).first;
        return sym::unknown(it->second);
    }
};
struct system_of {                                         // what a gadget's circuit demands, as polynomials
    std::vector<std::string> names;
    std::vector<std::pair<std::string, poly>> demands;     // name, must be zero
    clauses<sym> given, post;
    std::vector<std::pair<poly, int>> defs;
    std::vector<std::string> flaws;
    std::size_t ins, pars;
};
inline std::vector<sym> unknowns(const std::string &p, std::size_t n) { std::vector<sym> r; for (std::size_t i = 0; i < n; i++) r.push_back(sym::fresh(p + std::to_string(i))); return r; }
template<typename G> system_of demands(const config &cfg, int placement) {
    world w; W = &w;
    system_of r;
    auto x = unknowns("x", r.ins = G::ins(cfg)); auto k = unknowns("k", r.pars = G::pars(cfg));
    auto o = build<G, sf>(cfg, placement, x, k, false);
    std::map<std::string, int> at;
    cell_table t{at, *o.s};
    for (const auto &g : o.s->bp.gates())
        for (std::size_t row = 0; row < o.s->as.selector_column_size(g.selector_index); row++) {
            if (o.s->as.cell(3, g.selector_index, row).data == sym(0).data) continue;
            std::size_t n = 0;
            for (const auto &c : g.constraints) r.demands.push_back({"gate " + std::to_string(g.selector_index) + " row " + std::to_string(row) + " constraint " + std::to_string(n++), c.evaluate(row, t).data.p});
        }
    auto value = [&](const var_of<sf> &v) { return t.cell(v.type, v.index, v.rotation); };
    std::size_t n = 0;
    for (const auto &c : o.s->bp.copy_constraints()) r.demands.push_back({"copy " + std::to_string(n++), (value(c.first) - value(c.second)).data.p});
    std::vector<sym> outs;
    for (const auto &v : o.outs) outs.push_back(value(v));
    r.given = G::template given<sym>(cfg, x, k);
    r.post = G::template post<sym>(cfg, x, k, outs);
    if (!w.asked.empty()) throw unsupported("the circuit depends on the values of the inputs");
    if (!o.s->bp.lookup_gates().empty()) throw unsupported("lookups");
    r.names = w.names; r.defs = w.defs; r.flaws = o.flaws;
    if (!w.inverses.empty()) throw unsupported("an inverse in a circuit");
    W = nullptr;
    return r;
}

// ---- JSON
inline std::string js(const poly &p) {
    std::string r = "[";
    bool first = true;
    for (auto &t : p) {
        r += first ? "" : ","; first = false;
        r += "[\"" + t.second.str() + "\",[";
        bool f2 = true;
        for (auto &e : t.first) { r += std::string(f2 ? "" : ",") + "[" + std::to_string(e.first) + "," + std::to_string(e.second) + "]"; f2 = false; }
        r += "]]";
    }
    return r + "]";
}
inline std::string js(const std::string &s) { std::string r = "\""; for (char c : s) if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c >= 32) r += c; return r + "\""; }
inline std::string js(const clauses<sym> &c) {
    std::string r = "[";
    for (std::size_t i = 0; i < c.size(); i++) { r += i ? ",[" : "["; for (std::size_t j = 0; j < c[i].size(); j++) r += (j ? ",[" : "[") + js(c[i][j].first.data.p) + (c[i][j].second ? ",true]" : ",false]"); r += "]"; }
    return r + "]";
}
template<typename V, typename Fn> std::string js(const V &v, Fn f) { std::string r = "["; bool first = true; for (auto &x : v) { r += (first ? "" : ",") + f(x); first = false; } return r + "]"; }
inline std::string js(const std::vector<std::pair<poly, int>> &d) { return js(d, [](const std::pair<poly, int> &x) { return "[" + js(x.first) + "," + std::to_string(x.second) + "]"; }); }

// ---- the honest run with unknowns, one record for each way its questions can be answered
template<typename G> void paths(std::ostream &os, const config &cfg, int placement, bool empty) {
    std::vector<bool> script;
    bool first = true;
    std::size_t n = 0;
    os << "[";
    while (true) {
        if (++n > 200) throw unsupported("too many cases");
        world w; w.script = script; W = &w;
        auto x = unknowns("x", G::ins(cfg)); auto k = unknowns("k", G::pars(cfg));
        std::vector<std::pair<std::string, poly>> zero;
        std::vector<std::string> flaws;
        std::vector<sym> outs;
        if (empty) outs = only_values<G, sf>(cfg, placement, x, k);
        else {
            auto o = build<G, sf>(cfg, placement, x, k, true);
            site<sf> &s = *o.s;
            for (const auto &g : s.bp.gates())
                for (std::size_t row = 0; row < s.as.selector_column_size(g.selector_index); row++) {
                    if (s.as.cell(3, g.selector_index, row).data == sym(0).data) continue;
                    std::size_t m = 0;
                    for (const auto &c : g.constraints) zero.push_back({"gate " + std::to_string(g.selector_index) + " row " + std::to_string(row) + " constraint " + std::to_string(m++), c.evaluate(row, s.as).data.p});
                }
            std::size_t m = 0;
            for (const auto &c : s.bp.copy_constraints()) zero.push_back({"copy " + std::to_string(m++), (s.as.cell(c.first.type, c.first.index, c.first.rotation) - s.as.cell(c.second.type, c.second.index, c.second.rotation)).data.p});
            for (const auto &v : o.outs) outs.push_back(s.as.cell(v.type, v.index, v.rotation));
            flaws = o.flaws;
        }
        auto pre = G::template pre<sym>(cfg, x, k);
        auto post = G::template post<sym>(cfg, x, k, outs);
        os << (first ? "" : ",\n") << "{\"names\":" << js(w.names, [](const std::string &s) { return js(s); })
           << ",\"asked\":" << js(w.asked, [](const std::pair<poly, bool> &a) { return "[" + js(a.first) + (a.second ? ",true]" : ",false]"); })
           << ",\"inverses\":" << js(w.inverses) << ",\"defs\":" << js(w.defs)
           << ",\"zero\":" << js(zero, [](const std::pair<std::string, poly> &z) { return "[" + js(z.first) + "," + js(z.second) + "]"; })
           << ",\"pre\":" << js(pre) << ",\"post\":" << js(post) << ",\"flaws\":" << js(flaws, [](const std::string &s) { return js(s); }) << "}";
        first = false;
        script.clear();                                    // the next way of answering
        for (auto &a : w.asked) script.push_back(a.second);
        while (!script.empty() && !script.back()) script.pop_back();
        W = nullptr;
        if (script.empty()) break;
        script.back() = false;
    }
    os << "]";
}

// ---- numbers
inline bool holds(const clauses<num> &c) { for (auto &d : c) { bool any = false; for (auto &l : d) any |= l.first.is_zero() == l.second; if (!any) return false; } return true; }
inline std::string list(const std::vector<num> &v) { std::string r; for (auto &x : v) r += (r.empty() ? "" : ",") + std::to_string(x.data.v); return r; }
const std::uint64_t large = 2305843009213693951ull;
// the empty string when the honest run does what it should
template<typename G> std::string honest(const config &cfg, int placement, const std::vector<num> &x, const std::vector<num> &k) {
    W = nullptr; prime = large;
    if (!holds(G::template pre<num>(cfg, x, k))) return "";
    try {
        auto o = build<G, fp>(cfg, placement, x, k, true);
        if (!o.flaws.empty()) return o.flaws[0];
        site<fp> &s = *o.s;
        for (const auto &g : s.bp.gates())
            for (std::size_t row = 0; row < s.as.selector_column_size(g.selector_index); row++)
                if (!s.as.cell(3, g.selector_index, row).is_zero()) {
                    std::size_t m = 0;
                    for (const auto &c : g.constraints) { if (!c.evaluate(row, s.as).is_zero()) return "constraint " + std::to_string(m) + " of gate " + std::to_string(g.selector_index) + " fails on row " + std::to_string(row) + " for the values the gadget fills in"; m++; }
                }
        for (const auto &c : s.bp.copy_constraints()) if (!(s.as.cell(c.first.type, c.first.index, c.first.rotation) == s.as.cell(c.second.type, c.second.index, c.second.rotation))) return "a copy constraint fails for the values the gadget fills in";
        std::vector<num> outs;
        for (const auto &v : o.outs) outs.push_back(s.as.cell(v.type, v.index, v.rotation));
        if (!holds(G::template post<num>(cfg, x, k, outs))) return "the filled-in result " + list(outs) + " is not the promised one";
        if (G::has_empty) { auto e = only_values<G, fp>(cfg, placement, x, k); if (!holds(G::template post<num>(cfg, x, k, e))) return "the result " + list(e) + " of the value-only mode is not the promised one"; }
    } catch (const unsupported &e) { return std::string("the gadget cannot be filled in: ") + e.what(); }
    return "";
}
inline std::uint64_t at(const poly &p, const std::vector<long> &v) {
    num r(0);
    for (auto &t : p) { num m(t.second); for (auto &e : t.first) m = m * num(v[e.first]).pow(e.second); r = r + m; }
    return r.data.v;
}
inline bool holds(const clauses<sym> &c, const std::vector<long> &v) { for (auto &d : c) { bool any = false; for (auto &l : d) any |= (at(l.first.data.p, v) == 0) == l.second; if (!any) return false; } return true; }
// cells passing all constraints with a wrong result; depth first over the cells, modulo a small prime
struct liar {
    const system_of &s;
    std::vector<long> v;
    std::vector<std::vector<const poly *>> due;            // what can be judged once unknown i has a value
    std::uint64_t steps = 0, passing = 0, budget;
    std::vector<std::vector<std::pair<const poly *, int>>> fixes;
    liar(const system_of &s, std::uint64_t budget) : s(s), v(s.names.size(), 0), due(s.names.size() + 1), budget(budget) {
        for (auto &d : s.demands) due[last(d.second)].push_back(&d.second);
        defs.resize(s.names.size(), nullptr);
        for (auto &d : s.defs) defs[d.second] = &d.first;
    }
    std::vector<const poly *> defs;
    int last(const poly &p) { int m = 0; for (auto &t : p) for (auto &e : t.first) m = std::max(m, e.first); return m; }
    bool go(std::size_t i, std::size_t fixed) {            // true: found
        if (++steps > budget) return false;
        if (i == s.names.size()) { passing++; return holds(s.given, v) && !holds(s.post, v); }
        auto ok = [&]() { for (auto *p : due[i]) if (at(*p, v)) return false; return true; };
        if (defs[i]) { v[i] = at(*defs[i], v); return ok() && go(i + 1, fixed); }
        if (i < fixed) return ok() && go(i + 1, fixed);
        for (auto *p : due[i]) {                           // determined by an equation linear in it
            bool linear = true;
            for (auto &t : *p) { auto e = t.first.find(i); if (e != t.first.end() && e->second != 1) linear = false; }
            if (!linear) continue;
            v[i] = 0; std::uint64_t b = at(*p, v); v[i] = 1; std::uint64_t a = (num(at(*p, v)) - num(b)).data.v;
            if (!a) continue;
            v[i] = (-num(b) / num(a)).data.v;
            return ok() && go(i + 1, fixed);
        }
        for (long k = 0; k < (long)prime; k++) { v[i] = k; if (ok() && go(i + 1, fixed)) return true; }
        return false;
    }
};
struct entry {
    std::string prop, name;
    std::vector<config> cfgs;
    bool empty;
    std::function<std::size_t(const config &)> ins, pars;
    std::function<system_of(const config &, int)> demands;
    std::function<void(std::ostream &, const config &, int, bool)> paths;
    std::function<std::string(const config &, int, const std::vector<num> &, const std::vector<num> &)> honest;
    std::function<std::vector<num>(const config &, std::mt19937_64 &)> pick;      // inputs worth trying
};
template<typename G> entry of(const std::string &prop, const std::vector<config> &cfgs) {
    return {prop, G::name(), cfgs, G::has_empty, [](const config &c) { return G::ins(c); }, [](const config &c) { return G::pars(c); },
            [](const config &c, int p) { return vf::demands<G>(c, p); }, [](std::ostream &o, const config &c, int p, bool e) { vf::paths<G>(o, c, p, e); },
            [](const config &c, int p, const std::vector<num> &x, const std::vector<num> &k) { return vf::honest<G>(c, p, x, k); },
            [](const config &c, std::mt19937_64 &g) { return G::pick(c, g); }};
}
struct defaults {
    static const bool has_empty = false;
    static std::size_t pars(const config &) { return 0; }
    template<typename T> static clauses<T> given(const config &, const std::vector<T> &, const std::vector<T> &) { return {}; }
    template<typename T> static clauses<T> pre(const config &, const std::vector<T> &, const std::vector<T> &) { return {}; }
    static std::vector<num> pick(const config &, std::mt19937_64 &) { return {}; }
};
inline std::string show(const config &c) { std::string r; for (int x : c) r += (r.empty() ? "" : ".") + std::to_string(x); return r; }
inline std::vector<std::string> cut(const std::string &s, char c) { std::vector<std::string> r; std::stringstream t(s); std::string x; while (std::getline(t, x, c)) r.push_back(x); return r; }

inline std::string cur;
inline void died(int n) { printf("AT %s\n", cur.c_str()); fflush(stdout); _exit(100 + n % 100); }
inline int run(const std::vector<entry> &all, int argc, char **argv) {
    std::string mode = argv[1], prop = argv[2];
    if (mode == "dump") {
        std::cout << "[";
        bool first = true;
        for (auto &e : all) if (e.prop == prop) for (auto &cfg : e.cfgs) for (int p = 0; p < 2; p++) {
            std::cout << (first ? "" : ",\n") << "{\"gadget\":" << js(e.name) << ",\"config\":" << js(show(cfg)) << ",\"placement\":" << p; first = false;
            try {
                auto d = e.demands(cfg, p);
                std::ostringstream o;
                o << ",\"soundness\":{\"names\":" << js(d.names, [](const std::string &s) { return js(s); }) << ",\"demands\":" << js(d.demands, [](const std::pair<std::string, poly> &z) { return "[" + js(z.first) + "," + js(z.second) + "]"; })
                  << ",\"defs\":" << js(d.defs) << ",\"given\":" << js(d.given) << ",\"post\":" << js(d.post) << ",\"flaws\":" << js(d.flaws, [](const std::string &s) { return js(s); }) << "}";
                o << ",\"completeness\":"; e.paths(o, cfg, p, false);
                if (e.empty) { o << ",\"valueonly\":"; e.paths(o, cfg, p, true); }
                std::cout << o.str();
            } catch (const std::exception &x) { std::cout << ",\"unsupported\":" << js(x.what()); }
            std::cout << "}";
        }
        std::cout << "]\n";
        return 0;
    }
    if (mode == "replay") {                                // honest/<gadget>/<config>/<placement>/<inputs>/<parameters> or cells/<gadget>/<config>/<placement>/<prime>/<values>
        auto a = cut(argv[3], '/');
        for (auto &e : all) if (e.prop == prop && e.name == a[1]) {
            config cfg; for (auto &x : cut(a[2], '.')) cfg.push_back(std::stoi(x));
            int p = std::stoi(a[3]);
            auto nums = [](const std::string &s) { std::vector<num> r; for (auto &x : cut(s, ',')) r.push_back(num(std::stoull(x))); return r; };
            std::string why;
            if (a[0] == "honest") { prime = large; why = e.honest(cfg, p, nums(a[4]), a.size() > 5 ? nums(a[5]) : std::vector<num>()); }
            else {
                auto d = e.demands(cfg, p);
                prime = std::stoull(a[4]);
                std::vector<long> v; for (auto &x : cut(a[5], ',')) v.push_back(std::stol(x));
                v.resize(d.names.size());
                for (auto &f : d.defs) v[f.second] = at(f.first, v);
                bool pass = true; for (auto &z : d.demands) if (at(z.second, v)) pass = false;
                if (pass && holds(d.given, v) && !holds(d.post, v)) why = "these cells pass every constraint with a wrong result";
            }
            if (!why.empty()) { std::cout << "FAIL " << prop << " " << argv[3] << " :: " << why << std::endl; return 1; }
        }
        return 0;
    }
    // search
    for (int n : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(n, died);
    std::uint64_t seed = std::strtoull(argv[3], nullptr, 10), tried = 0, real = 0;
    bool thorough = !std::strcmp(argv[4], "thorough");
    int fails = 0;
    for (auto &e : all) if (e.prop == prop) for (auto &cfg : e.cfgs) for (int p = 0; p < 2; p++) {
        std::mt19937_64 g(seed * 7919 + p);
        std::size_t n = e.ins(cfg), m = e.pars(cfg);
        const std::uint64_t edge[] = {0, 1, large - 1, 2, 3, large - 2, 4, large / 2, large / 2 + 1};
        auto fail = [&](const std::string &c, const std::string &why) { std::cout << "FAIL " << prop << " " << c << " :: " << why << std::endl; fails++; };
        std::string place = e.name + "/" + show(cfg) + "/" + std::to_string(p);
        int bad = 0;
        try {
            for (int i = 0; i < (thorough ? 6000 : 1500) && !bad; i++) {
                prime = large;
                std::vector<num> x, k;
                std::size_t z = i;
                std::vector<num> pk = e.pick(cfg, g);
                for (std::size_t j = 0; j < n + m; j++) {
                    num val;
                    if (i < 800) { val = num(edge[z % 9]); z /= 9; if (j > 2) val = g() % 4 ? num(edge[g() % 9]) : num(g() % large); }
                    else if (g() % 5 == 0 && j) val = x.empty() ? num(0) : x[g() % x.size()];
                    else val = g() % 2 ? num(g() % large) : num(edge[g() % 9]);
                    (j < n ? x : k).push_back(val);
                }
                if (!pk.empty() && i % 4) x = pk;
                std::string c = "honest/" + place + "/" + list(x) + "/" + list(k), why;
                cur = c;
                why = e.honest(cfg, p, x, k);
                tried++;
                if (!why.empty()) { fail(c, why); bad = 1; }
            }
            auto d = e.demands(cfg, p);
            if (!d.flaws.empty()) fail("honest/" + place + "/" + list(std::vector<num>(n, num(1))) + "/" + list(std::vector<num>(m, num(1))), d.flaws[0]);
            bad = 0;
            auto t0 = std::chrono::steady_clock::now();
            for (std::uint64_t q : {5, 7, 11, 13}) {
                std::uint64_t combos = 1; for (std::size_t j = 0; j < n + m; j++) combos = std::min<std::uint64_t>(combos * q, 1000000);
                std::uint64_t limit = thorough ? 4000 : 500, rounds = std::min<std::uint64_t>(combos, limit);
                for (std::uint64_t i = 0; i < rounds && !bad; i++) {
                    prime = q;
                    liar l(d, 20000);
                    std::uint64_t z = i;
                    for (std::size_t j = 0; j < n + m; j++) { if (combos <= limit) { l.v[j] = z % q; z /= q; } else l.v[j] = g() % 3 ? g() % q : g() % 2; }
                    if (l.go(0, n + m)) { std::string c; for (long y : l.v) c += (c.empty() ? "" : ",") + std::to_string(y); fail("cells/" + place + "/" + std::to_string(q) + "/" + c, "these cells pass every constraint with a wrong result"); bad = 1; }
                    tried++; real += l.passing;
                    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > (thorough ? 20 : 2)) break;
                }
            }
        } catch (const std::exception &x) { std::cout << "SKIP " << place << " " << x.what() << std::endl; }
    }
    std::cout << "TRIED " << tried << " NONTRIVIAL " << real << std::endl;
    return fails ? 1 : 0;
}
}
