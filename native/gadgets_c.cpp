// Field gadgets (C01, C02, C03) and the batched ones (C04): what each promises, and how it is called.
// dump <prop> | search <prop> <seed> <tier> | replay <prop> <case>
#include "gadgets.hpp"
#include <nil/blueprint/components/algebra/fields/plonk/addition.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/subtraction.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/multiplication_by_constant.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/division_or_zero.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_and_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/logic_or_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/linear_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/quadratic_interpolation.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/equality_flag.hpp>
#include <nil/blueprint/components/algebra/fields/plonk/non_native/logic_ops.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/swap.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/additions.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/multiplications.hpp>
#include <nil/blueprint/components/systems/snark/plonk/flexible/constant_pow.hpp>
using namespace vf;
#define MANY template<typename T> static clauses<T>
#define ARGS const config &cfg, const std::vector<T> &x, const std::vector<T> &k
typedef std::vector<num> nums;

template<template<typename, typename, typename> class C> struct two_inputs : defaults {
    static const bool has_empty = true;
    static std::size_t ins(const config &) { return 2; }
    template<typename F> static auto make(site<F> &s) {
        typedef C<arith<F>, F, basic_non_native_policy<F>> comp;
        typename comp::input_type in; in.x = s.in[0]; in.y = s.in[1];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
};
struct g_add : two_inputs<components::addition> { static const char *name() { return "addition"; } MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(o.at(0) - x[0] - x[1]); } };
struct g_sub : two_inputs<components::subtraction> { static const char *name() { return "subtraction"; } MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(o.at(0) - x[0] + x[1]); } };
struct g_mul : two_inputs<components::multiplication> { static const char *name() { return "multiplication"; } MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(o.at(0) - x[0] * x[1]); } };
struct g_div : two_inputs<components::division> {
    static const char *name() { return "division"; }
    MANY pre(ARGS) { return clauses<T>().nonzero(x[1]); }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(o.at(0) * x[1] - x[0]).nonzero(x[1]); }
};
struct g_mulc : defaults {
    static const char *name() { return "multiplication_by_constant"; }
    static const bool has_empty = true;
    static std::size_t ins(const config &) { return 1; }
    static std::size_t pars(const config &) { return 1; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::mul_by_constant<arith<F>, F> comp;
        typename comp::input_type in; in.x = s.in[0];
        return std::make_pair(comp(s.w, cols(s.c.begin(), s.c.begin() + 1), cols(), s.par[0]), in);
    }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(o.at(0) - k[0] * x[0]); }
};
struct g_divz : defaults {
    static const char *name() { return "division_or_zero"; }
    static const bool has_empty = true;
    static std::size_t ins(const config &) { return 2; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::division_or_zero<arith<F>, F> comp;
        typename comp::input_type in; in.x = s.in[0]; in.y = s.in[1];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().any({{x[1], true}, {o.at(0) * x[1] - x[0], true}}).any({{x[1], false}, {o[0], true}}); }
};
template<template<typename> class C> struct flag2 : defaults {
    static const bool has_empty = true;
    static std::size_t ins(const config &) { return 2; }
    template<typename F> static auto make(site<F> &s) {
        typedef C<arith<F>> comp;
        typename comp::input_type in; in.x = s.in[0]; in.y = s.in[1];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
};
struct g_andf : flag2<components::logic_and_flag> {        // 1 when both are nonzero
    static const char *name() { return "and_flag"; }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().any({{x[0], false}, {o.at(0), true}}).any({{x[1], false}, {o[0], true}}).any({{x[0], true}, {x[1], true}, {o[0] - T(1), true}}); }
};
struct g_orf : flag2<components::logic_or_flag> {          // 1 when one is nonzero
    static const char *name() { return "or_flag"; }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().any({{x[0], true}, {o.at(0) - T(1), true}}).any({{x[1], true}, {o[0] - T(1), true}}).any({{x[0], false}, {x[1], false}, {o[0], true}}); }
};
struct g_eq : defaults {                                   // second setting: inequality
    static const char *name() { return "equality_flag"; }
    static std::size_t ins(const config &) { return 2; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::equality_flag<arith<F>, F> comp;
        typename comp::input_type in; in.x = s.in[0]; in.y = s.in[1];
        return std::make_pair(comp(s.w, cols(), cols(), s.cfg[1] != 0), in);
    }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().any({{x[0] - x[1], false}, {o.at(0) - T(cfg[1] ? 0 : 1), true}}).any({{x[0] - x[1], true}, {o[0] - T(cfg[1] ? 1 : 0), true}}); }
};
template<template<typename> class C, int N> struct bits_op : defaults {
    static std::size_t ins(const config &) { return N; }
    template<typename F> static auto make(site<F> &s) {
        typedef C<arith<F>> comp;
        typename comp::input_type in; for (int i = 0; i < N; i++) in.input[i] = s.in[i];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
    MANY given(ARGS) { clauses<T> c; for (int i = 0; i < N; i++) c.bit(x[i]); return c; }
    MANY pre(ARGS) { return given<T>(cfg, x, k); }
    static nums pick(const config &, std::mt19937_64 &g) { nums r; for (int i = 0; i < N; i++) r.push_back(num(g() % 2)); return r; }
    // the output for each combination of bits
    MANY truth(const std::vector<T> &x, const T &o, int table) {
        clauses<T> c;
        for (int i = 0; i < 1 << N; i++) {
            std::vector<std::pair<T, bool>> d;
            for (int j = 0; j < N; j++) d.push_back({x[j] - T(i >> j & 1), false});
            d.push_back({o - T(table >> i & 1), true});
            c.any(d);
        }
        return c;
    }
};
#define OP(S, NAME, C, N, TABLE) struct S : bits_op<components::C, N> { static const char *name() { return NAME; } MANY post(ARGS, const std::vector<T> &o) { return truth<T>(x, o.at(0), TABLE); } };
OP(g_not, "not", logic_not, 1, 1)
OP(g_and, "and", logic_and, 2, 8)
OP(g_or, "or", logic_or, 2, 14)
OP(g_xor, "xor", logic_xor, 2, 6)
OP(g_nand, "nand", logic_nand, 2, 7)
OP(g_nor, "nor", logic_nor, 2, 1)

struct g_lin : defaults {                                  // the line through two points
    static const char *name() { return "linear_interpolation"; }
    static std::size_t ins(const config &) { return 4; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::linear_inter_coefs<arith<F>, F> comp;
        typename comp::input_type in; in.x0 = s.in[0]; in.z0 = s.in[1]; in.x1 = s.in[2]; in.z1 = s.in[3];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
    MANY pre(ARGS) { return clauses<T>().nonzero(x[0] - x[2]); }
    MANY post(ARGS, const std::vector<T> &o) { clauses<T> c = pre<T>(cfg, x, k); for (int i = 0; i < 2; i++) c.zero(o.at(0) + o.at(1) * x[2 * i] - x[2 * i + 1]); return c; }
};
struct g_quad : defaults {                                 // the parabola through three
    static const char *name() { return "quadratic_interpolation"; }
    static std::size_t ins(const config &) { return 6; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::quadratic_inter_coefs<arith<F>, F> comp;
        typename comp::input_type in; in.x0 = s.in[0]; in.z0 = s.in[1]; in.x1 = s.in[2]; in.z1 = s.in[3]; in.x2 = s.in[4]; in.z2 = s.in[5];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
    MANY pre(ARGS) { return clauses<T>().nonzero(x[0] - x[2]).nonzero(x[0] - x[4]).nonzero(x[2] - x[4]); }
    MANY post(ARGS, const std::vector<T> &o) { clauses<T> c = pre<T>(cfg, x, k); for (int i = 0; i < 3; i++) c.zero(o.at(0) + o.at(1) * x[2 * i] + o.at(2) * x[2 * i] * x[2 * i] - x[2 * i + 1]); return c; }
};
struct g_swap : defaults {                                 // the pair, exchanged when the bit is one
    static const char *name() { return "swap"; }
    static const bool has_empty = true;
    static std::size_t ins(const config &) { return 3; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::flexible_swap<arith<F>, F> comp;
        typename comp::input_type in; for (int i = 0; i < 3; i++) in.inp[i] = s.in[i];
        return std::make_pair(comp(s.w, cols(), cols()), in);
    }
    MANY pre(ARGS) { return clauses<T>().bit(x[0]); }
    static nums pick(const config &, std::mt19937_64 &g) { return {num(g() % 2), num(g() % large), num(g() % large)}; }
    MANY post(ARGS, const std::vector<T> &o) {
        clauses<T> c = pre<T>(cfg, x, k);
        for (int b = 0; b < 2; b++) for (int i = 0; i < 2; i++) c.any({{x[0] - T(b), false}, {o.at(i) - x[1 + (i ^ b)], true}});
        return c;
    }
};
template<template<typename, typename> class C, bool Mul> struct batch : defaults {     // settings: columns, pairs
    static const char *name() { return Mul ? "multiplications" : "additions"; }
    static std::size_t ins(const config &c) { return 2 * c[1]; }
    template<typename F> static auto make(site<F> &s) {
        typedef C<arith<F>, F> comp;
        typename comp::input_type in; for (int i = 0; i < s.cfg[1]; i++) in.arr.push_back({s.in[2 * i], s.in[2 * i + 1]});
        return std::make_pair(comp(s.w, cols(), cols(), s.cfg[1]), in);
    }
    MANY post(ARGS, const std::vector<T> &o) {
        clauses<T> c;
        if (o.size() != (std::size_t)cfg[1]) { c.zero(T(1)); return c; }
        for (int i = 0; i < cfg[1]; i++) c.zero(o[i] - (Mul ? x[2 * i] * x[2 * i + 1] : x[2 * i] + x[2 * i + 1]));
        return c;
    }
};
typedef batch<components::flexible_additions, false> g_adds;
typedef batch<components::flexible_multiplications, true> g_muls;
struct g_cpow : defaults {                                 // settings: columns, exponent
    static const char *name() { return "constant_power"; }
    static std::size_t ins(const config &) { return 1; }
    template<typename F> static auto make(site<F> &s) {
        typedef components::flexible_constant_pow<arith<F>, F> comp;
        typename comp::input_type in; in.x = s.in[0];
        return std::make_pair(comp(s.w, cols(), cols(), typename F::integral_type(s.cfg[1])), in);
    }
    MANY post(ARGS, const std::vector<T> &o) { return clauses<T>().zero(o.at(0) - x[0].pow(cfg[1])); }
};
int main(int argc, char **argv) {
    return run({
#ifdef VF_C01
        of<g_add>("C01", {{3}}), of<g_sub>("C01", {{3}}), of<g_mul>("C01", {{3}}), of<g_div>("C01", {{4}}), of<g_mulc>("C01", {{2}}), of<g_divz>("C01", {{5}}),
#endif
#ifdef VF_C02
        of<g_not>("C02", {{2}}), of<g_and>("C02", {{3}}), of<g_or>("C02", {{3}}), of<g_xor>("C02", {{3}}), of<g_nand>("C02", {{3}}), of<g_nor>("C02", {{3}}),
        of<g_andf>("C02", {{2}, {3}, {4}, {5}}), of<g_orf>("C02", {{2}, {3}, {4}, {5}, {6}}), of<g_eq>("C02", {{4, 0}, {4, 1}}),
#endif
#ifdef VF_C03
        of<g_lin>("C03", {{7}}), of<g_quad>("C03", {{10}}),
#endif
#ifdef VF_C04
        of<g_swap>("C04", {{5}}), of<g_adds>("C04", {{3, 1}, {3, 3}, {6, 3}, {6, 4}, {9, 4}}), of<g_muls>("C04", {{5, 3}, {10, 3}, {10, 7}, {15, 6}}),
        of<g_cpow>("C04", {{5, 3}, {5, 27}, {5, 64}, {5, 70}, {6, 1000}, {7, 255}}),
#endif
    }, argc, argv);
}
