// Gadgets a proof checker is assembled from (C05): what each promises, and how it is called.
// dump <prop> | search <prop> <seed> <tier> | replay <prop> <case>
#include "gadgets.hpp"
#include <nil/blueprint/components/systems/snark/plonk/flexible/pow_factor.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_lin_inter.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/fri_array_swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/permutation_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/gate_argument_verifier.hpp>
#include <nil/blueprint/components/systems/snark/plonk/placeholder/lookup_argument_verifier.hpp>
using namespace vf;
#define MANY template<typename T> static clauses<T>
#define ARGS const config &cfg, const std::vector<T> &x, const std::vector<T> &k
typedef std::vector<num> nums;
template<typename V> V part(const V &v, std::size_t from, std::size_t n) { return V(v.begin() + from, v.begin() + from + n); }
template<typename T> T horner(const std::vector<T> &c, const T &t) { T r = c.back(); for (std::size_t i = c.size() - 1; i > 0; i--) r = r * t + c[i - 1]; return r; }  // c[0] + c[1] t + ...

struct g_poly : defaults {                                 // settings: columns, degree; coefficients from the highest, then the point
    static const char *name() { return "polynomial_value"; }
    static std::size_t ins(const config &c) { return c[1] + 2; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::pow_factor<arith<F>, F> comp;
        typename comp::input_type in; in.coefficients = part(s.in, 0, s.cfg[1] + 1); in.theta = s.in.back();
        return std::make_pair(comp(s.w, cols(s.c.begin(), s.c.begin() + 1), cols(), s.cfg[1]), in);
    }
    MANY post(ARGS, const std::vector<T> &o) { std::vector<T> c(x.rbegin() + 1, x.rend()); return clauses<T>().zero(o.at(0) - horner(c, x.back())); }
};
struct g_fold : defaults {                                 // the line through (s, y0), (-s, y1), at alpha
    static const char *name() { return "fold"; }
    static std::size_t ins(const config &) { return 4; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::fri_lin_inter<arith<F>, F> comp;
        typename comp::input_type in; in.s = s.in[0]; in.y0 = s.in[1]; in.y1 = s.in[2]; in.alpha = s.in[3];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
    MANY given(ARGS) { return clauses<T>().nonzero(x[0]); }
    MANY pre(ARGS) { return given<T>(cfg, x, k); }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(T(2) * x[0] * (o.at(0) - x[1]) - (x[2] - x[1]) * (x[0] - x[3])); }
};
struct g_swaps : defaults {                                // settings: columns, pairs; the bit, then the pairs
    static const char *name() { return "array_swap"; }
    static std::size_t ins(const config &c) { return 1 + 2 * c[1]; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::fri_array_swap<arith<F>, F> comp;
        typename comp::input_type in; in.t = s.in[0]; in.arr = part(s.in, 1, 2 * s.cfg[1]);
        return std::make_pair(comp(s.w, cols(), cols(), s.cfg[1]), in);
    }
    MANY given(ARGS) { return clauses<T>().bit(x[0]); }
    MANY pre(ARGS) { return given<T>(cfg, x, k); }
    static nums pick(const config &c, std::mt19937_64 &g) { nums r{num(g() % 2)}; for (int i = 0; i < 2 * c[1]; i++) r.push_back(num(g() % large)); return r; }
    MANY post(ARGS, const std::vector<T> &o) {
        clauses<T> c;
        if (o.size() != 2 * (std::size_t)cfg[1]) { c.zero(T(1)); return c; }
        for (int b = 0; b < 2; b++) for (int i = 0; i < 2 * cfg[1]; i++) c.any({{x[0] - T(b), false}, {o[i] - x[1 + (i ^ b)], true}});
        return c;
    }
};
struct g_perm : defaults {                                 // settings: columns, m; f, S_id, S_sigma, L0, V, V(next), q_last, q_pad, two challenges
    static const char *name() { return "permutation_argument"; }
    static std::size_t ins(const config &c) { return 3 * c[1] + 7; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::permutation_verifier<arith<F>> comp;
        std::size_t m = s.cfg[1];
        typename comp::input_type in; in.f = part(s.in, 0, m); in.Se = part(s.in, m, m); in.Ssigma = part(s.in, 2 * m, m);
        in.L0 = s.in[3 * m]; in.V = s.in[3 * m + 1]; in.V_zeta = s.in[3 * m + 2]; in.q_last = s.in[3 * m + 3]; in.q_pad = s.in[3 * m + 4]; in.thetas[0] = s.in[3 * m + 5]; in.thetas[1] = s.in[3 * m + 6];
        return std::make_pair(comp(s.w, cols(), cols(), m), in);
    }
    MANY post(ARGS, const std::vector<T> &o) {
        std::size_t m = cfg[1];
        T a = x[m * 0] + x[3 * m + 5] * x[m] + x[3 * m + 6], b = x[0] + x[3 * m + 5] * x[2 * m] + x[3 * m + 6];
        for (std::size_t i = 1; i < m; i++) { a = a * (x[i] + x[3 * m + 5] * x[m + i] + x[3 * m + 6]); b = b * (x[i] + x[3 * m + 5] * x[2 * m + i] + x[3 * m + 6]); }
        T L0 = x[3 * m], V = x[3 * m + 1], Vz = x[3 * m + 2], ql = x[3 * m + 3], qp = x[3 * m + 4];
        return clauses<T>().zero(o.at(0) - L0 * (T(1) - V)).zero(o.at(1) - (T(1) - (ql + qp)) * (Vz * b - V * a)).zero(o.at(2) - ql * (V * V - V));
    }
};
struct g_gate : defaults {                                 // settings: columns, degree; challenge, C_0.., selector
    static const char *name() { return "gate"; }
    static std::size_t ins(const config &c) { return c[1] + 3; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::detail::gate_component<arith<F>> comp;
        typename comp::input_type in; in.theta = s.in[0]; in.constraints = part(s.in, 1, s.cfg[1] + 1); in.selector = s.in.back();
        return std::make_pair(comp(s.w, cols(), cols(), s.cfg[1]), in);
    }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(o.at(0) - x.back() * horner(part(x, 1, cfg[1] + 1), x[0])); }
};
struct g_gates : defaults {                                // settings: columns, sizes of the gates; challenge, constraints, selectors
    static const char *name() { return "gate_argument"; }
    static std::size_t total(const config &c) { std::size_t r = 0; for (std::size_t i = 1; i < c.size(); i++) r += c[i]; return r; }
    static std::size_t ins(const config &c) { return 1 + total(c) + c.size() - 1; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::basic_constraints_verifier<arith<F>> comp;
        typename comp::input_type in; in.theta = s.in[0]; in.constraints = part(s.in, 1, total(s.cfg)); in.selectors = part(s.in, 1 + total(s.cfg), s.cfg.size() - 1);
        std::vector<std::size_t> sizes(s.cfg.begin() + 1, s.cfg.end());
        return std::make_pair(comp(s.w, cols(s.c.begin(), s.c.begin() + 1), cols(), sizes), in);
    }
    MANY post(ARGS, const std::vector<T> &o) {             // the gates, each with the powers of the challenge after the last one's
        T r(0); std::size_t at = 0;
        for (std::size_t g = 1; g < cfg.size(); g++) for (int i = 0; i < cfg[g]; i++, at++) r = r + x[1 + total(cfg) + g - 1] * x[1 + at] * x[0].pow(at);
        return clauses<T>().zero(o.at(0) - r);
    }
};
struct g_f1 : defaults {                                   // settings: columns, m; beta, gamma, s, t
    static const char *name() { return "lookup_product"; }
    static std::size_t ins(const config &c) { return 2 + 2 * c[1]; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::detail::f1_loop<arith<F>> comp;
        typename comp::input_type in{s.in[0], s.in[1], part(s.in, 2, s.cfg[1]), part(s.in, 2 + s.cfg[1], s.cfg[1])};
        return std::make_pair(comp(s.w, cols(), cols(), s.cfg[1]), in);
    }
    MANY post(ARGS, const std::vector<T> &o) {
        T d = (T(1) + x[0]) * x[1], h = d + x[2] + x[0] * x[2 + cfg[1]];
        for (int i = 1; i < cfg[1]; i++) h = h * (d + x[2 + i] + x[0] * x[2 + cfg[1] + i]);
        return clauses<T>().zero(o.at(0) - h);
    }
};
struct g_f3 : defaults {                                   // settings: columns, m; alpha, s, t
    static const char *name() { return "lookup_sum"; }
    static std::size_t ins(const config &c) { return 3 * c[1]; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::detail::f3_loop<arith<F>> comp;
        std::size_t m = s.cfg[1];
        typename comp::input_type in{part(s.in, 0, m), part(s.in, m, m), part(s.in, 2 * m, m)};
        return std::make_pair(comp(s.w, cols(), cols(), m), in);
    }
    MANY post(ARGS, const std::vector<T> &o) { T r(0); for (int i = 0; i < cfg[1]; i++) r = r + x[i] * (x[cfg[1] + i] - x[2 * cfg[1] + i]); return clauses<T>().zero(o.at(0) - r); }
};
// settings: columns; gates, constraints of each, inputs of each constraint; tables, options of each, columns of each
struct g_lookup : defaults {
    static const char *name() { return "lookup_argument"; }
    struct shape {
        std::size_t w; std::vector<std::size_t> cons, lens, opts, wide; std::size_t inputs = 0, options = 0, cells = 0, cellsT = 0, m;
        shape(const config &c) {
            std::size_t i = 0; w = c[i++];
            auto take = [&](std::size_t n) { std::vector<std::size_t> r; while (n--) r.push_back(c[i++]); return r; };
            std::size_t g = c[i++]; cons = take(g); for (auto x : cons) inputs += x; lens = take(inputs); for (auto x : lens) cells += x;
            std::size_t t = c[i++]; opts = take(t); wide = take(t); for (std::size_t j = 0; j < t; j++) { options += opts[j]; cellsT += opts[j] * wide[j]; }
            m = inputs + options;
        }
    };
    // theta, beta, gamma, alphas, V, V', q_last, q_last', q_blind, q_blind', L0, gate selectors, table numbers, inputs, table selectors, table cells, both shifted, sorted
    template<typename V> struct parts {
        typename V::value_type theta, beta, gamma, V0, V1, l0, l1, b0, b1, L0; V alphas, gsel, ids, in, tsel, tab, tsel1, tab1, sorted;
        parts(const shape &s, const V &x) {
            std::size_t i = 0;
            auto one = [&]() { return x[i++]; };
            auto take = [&](std::size_t n) { V r(x.begin() + i, x.begin() + i + n); i += n; return r; };
            theta = one(); beta = one(); gamma = one(); alphas = take(s.m - 1); V0 = one(); V1 = one(); l0 = one(); l1 = one(); b0 = one(); b1 = one(); L0 = one();
            gsel = take(s.cons.size()); ids = take(s.inputs); in = take(s.cells); tsel = take(s.opts.size()); tab = take(s.cellsT); tsel1 = take(s.opts.size()); tab1 = take(s.cellsT); sorted = take(3 * s.m - 1);
        }
    };
    static std::size_t ins(const config &c) { shape s(c); return 3 + s.m - 1 + 7 + s.cons.size() + s.inputs + s.cells + 2 * s.opts.size() + 2 * s.cellsT + 3 * s.m - 1; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::lookup_verifier<arith<F>> comp;
        shape h(s.cfg); parts<std::vector<var_of<F>>> p(h, s.in);
        typename comp::input_type in; in.theta = p.theta; in.beta = p.beta; in.gamma = p.gamma; in.alphas = p.alphas; in.V_L_values = {p.V0, p.V1}; in.q_last = {p.l0, p.l1}; in.q_blind = {p.b0, p.b1}; in.L0 = p.L0;
        in.lookup_gate_selectors = p.gsel; in.lookup_gate_constraints_table_ids = p.ids; in.lookup_gate_constraints_lookup_inputs = p.in; in.lookup_table_selectors = p.tsel; in.lookup_table_lookup_options = p.tab;
        in.shifted_lookup_table_selectors = p.tsel1; in.shifted_lookup_table_lookup_options = p.tab1; in.sorted = p.sorted;
        return std::make_pair(comp(s.w, cols(s.c.begin(), s.c.begin() + 1), cols(), h.cons.size(), h.cons, h.lens, h.opts.size(), h.opts, h.wide), in);
    }
    MANY post(ARGS, const std::vector<T> &o) {
        shape h(cfg); parts<std::vector<T>> p(h, x);
        T mask = T(1) - (p.l0 + p.b0), mask1 = T(1) - (p.l1 + p.b1);
        std::vector<T> val, val1, inp;
        auto squeeze = [&](const T &id, const std::vector<T> &cells, std::size_t from, std::size_t n) { std::vector<T> c{id}; for (std::size_t i = 0; i < n; i++) c.push_back(cells[from + i]); return horner(c, p.theta); };
        for (std::size_t t = 0, at = 0; t < h.opts.size(); t++) for (std::size_t j = 0; j < h.opts[t]; j++, at += h.wide[t]) {
            val.push_back(mask * p.tsel[t] * squeeze(T(t + 1), p.tab, at, h.wide[t]));
            val1.push_back(mask1 * p.tsel1[t] * squeeze(T(t + 1), p.tab1, at, h.wide[t]));
        }
        for (std::size_t g = 0, c = 0, at = 0; g < h.cons.size(); g++) for (std::size_t j = 0; j < h.cons[g]; j++) { inp.push_back(p.gsel[g] * squeeze(p.ids[c], p.in, at, h.lens[c])); at += h.lens[c++]; }
        auto product = [&](const std::vector<T> &a, const std::vector<T> &b) { T d = (T(1) + p.beta) * p.gamma, r = d + a[0] + p.beta * b[0]; for (std::size_t i = 1; i < a.size(); i++) r = r * (d + a[i] + p.beta * b[i]); return r; };
        T H = product(part(p.sorted, 0, h.m), part(p.sorted, h.m, h.m)), G = product(inp, inp) * product(val, val1), S(0);
        for (std::size_t i = 0; i + 1 < h.m; i++) S = S + p.alphas[i] * (p.sorted[i + 1] - p.sorted[2 * h.m + i]);
        return clauses<T>().zero(o.at(0) - (T(1) - p.V0) * p.L0).zero(o.at(1) - p.l0 * (p.V0 * p.V0 - p.V0)).zero(o.at(2) - mask * (p.V1 * H - p.V0 * G)).zero(o.at(3) - p.L0 * S);
    }
};
int main(int argc, char **argv) {
    return run({
        of<g_poly>("C05", {{10, 1}, {10, 7}, {10, 8}, {10, 20}, {18, 48}}), of<g_fold>("C05", {{5}}), of<g_swaps>("C05", {{5, 1}, {5, 2}, {9, 2}, {9, 3}, {13, 3}, {13, 7}}),
        of<g_perm>("C05", {{6, 2}, {6, 3}, {6, 4}, {6, 5}, {6, 6}}),
        of<g_gate>("C05", {{3, 1}, {4, 2}, {5, 3}, {6, 4}, {6, 5}, {6, 6}, {7, 5}, {9, 6}, {10, 5}, {10, 9}, {14, 7}}),
        of<g_gates>("C05", {{10, 1}, {10, 3}, {10, 1, 1}, {10, 2, 1}, {10, 1, 2, 3}}),
        of<g_f1>("C05", {{4, 1}, {4, 2}, {4, 3}, {4, 4}, {5, 4}, {6, 5}, {7, 2}, {7, 5}, {8, 6}, {9, 6}, {10, 6}}),
        of<g_f3>("C05", {{4, 1}, {5, 1}, {6, 1}, {4, 3}, {5, 6}, {6, 4}, {6, 5}, {7, 8}, {8, 1}, {8, 2}, {8, 4}, {9, 5}, {10, 6}, {12, 7}}),
        of<g_lookup>("C05", {{9, 1, 1, 1, 1, 1, 1}, {5, 1, 1, 1, 1, 1, 1}, {6, 1, 2, 1, 1, 1, 1, 2}, {10, 1, 1, 2, 2, 1, 1, 1, 2}}),
    }, argc, argv);
}
