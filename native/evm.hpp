// The real circuit of the EVM arithmetic operations, filled in with a sequence of operations on words.
#pragma once
#include <boost/multiprecision/cpp_int.hpp>
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <unistd.h>
namespace vf {
namespace mp = boost::multiprecision;
typedef mp::number<mp::backends::field_backend> field_number;
constexpr wide P = field_number::M();
struct num {
    field_number data;
    constexpr num() { }
    template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> constexpr num(T x) : data(x) { }
    template<typename B, mp::expression_template_option O> constexpr num(const mp::number<B, O> &x) : data(field_number(x)) { }
    constexpr num(const field_number &x) : data(x) { }
    static constexpr num zero() { return num(0); }
    static constexpr num one() { return num(1); }
    static num drawn(std::uint64_t s) { return num(s); }
    bool is_zero() const { return *this == num(0); }
    bool is_one() const { return *this == num(1); }
    friend constexpr num operator+(const num &a, const num &b) { return num(a.data + b.data); }
    friend constexpr num operator-(const num &a, const num &b) { return num(a.data - b.data); }
    friend constexpr num operator*(const num &a, const num &b) { return num(a.data * b.data); }
    friend num operator/(const num &a, const num &b) { return a * b.inversed(); }
    constexpr num operator-() const { return zero() - *this; }
    num &operator+=(const num &o) { return *this = *this + o; }
    num &operator-=(const num &o) { return *this = *this - o; }
    num &operator*=(const num &o) { return *this = *this * o; }
    num &operator++() { return *this += 1; }
    friend constexpr bool operator==(const num &a, const num &b) { return a.data == b.data; }
    friend constexpr bool operator!=(const num &a, const num &b) { return !(a == b); }
    friend constexpr bool operator<(const num &a, const num &b) { return a.data < b.data; }
    friend constexpr bool operator>(const num &a, const num &b) { return a.data > b.data; }
    friend constexpr bool operator<=(const num &a, const num &b) { return a.data <= b.data; }
    friend constexpr bool operator>=(const num &a, const num &b) { return a.data >= b.data; }
    num squared() const { return *this * *this; }
    num doubled() const { return *this + *this; }
    num pow(wide e) const { num r = one(), b = *this; while (e != 0) { if (e & 1) r = r * b; b = b * b; e >>= 1; } return r; }
    num inversed() const {
        if (data.v.n >= 0) { F->nodes.push_back({'i', data.v.n, 0, P}); F->at.push_back(F->sampled ? num(field_number::of(known(at(data.v)))).inversed().data.v.v : wide(0)); return num(field_number::of(val{0, (int)F->nodes.size() - 1})); }
        if (data.v.v == 0) throw unsupported("inverse of zero");
        static std::map<std::string, num> memo;
        auto k = text(data.v.v); auto i = memo.find(k);
        return i != memo.end() ? i->second : memo[k] = pow(P - 2);
    }
    friend std::ostream &operator<<(std::ostream &o, const num &n) { return o << text(n.data.v.v); }
};
struct fp {
    typedef num value_type;
    typedef mp::number<mp::backends::cpp_int_modular_backend<256>> integral_type;
    typedef mp::number<mp::backends::cpp_int_modular_backend<512>> extended_integral_type;
    static constexpr std::size_t modulus_bits = 254, number_bits = 254, arity = 1, value_bits = 254;
    static constexpr integral_type modulus = integral_type::of(known(P));
};
}
#define CRYPTO3_BLUEPRINT_BASIC_NON_NATIVE_POLICY_HPP
#include <nil/crypto3/plonk_standin.hpp>
namespace nil { namespace blueprint {
    template<typename F> struct basic_non_native_policy {
        template<typename O> struct field { static constexpr std::uint32_t ratio = 1; typedef crypto3::zk::snark::plonk_variable<typename F::value_type> value_type; };
    };
} }
#include <nil/blueprint/zkevm/zkevm_circuit.hpp>
using namespace nil::blueprint;
using vf::num; using vf::fp;
typedef nil::crypto3::zk::snark::plonk_constraint_system<fp> arith;
typedef nil::crypto3::zk::snark::plonk_variable<num> var;
typedef nil::crypto3::math::expression<var> expr;

static std::string cur;
static void died(int n) { std::string s = "AT " + cur + "\n"; (void)!write(1, s.data(), s.size()); _exit(100 + n); }
static std::vector<std::string> cut(const std::string &s, char c) { std::vector<std::string> r; std::string t; std::istringstream i(s); while (std::getline(i, t, c)) r.push_back(t); return r; }

struct opinfo { const char *name; zkevm_opcode code; int words; };
static const opinfo OPS[] = {{"ADD", zkevm_opcode::ADD, 2}, {"SUB", zkevm_opcode::SUB, 2}, {"MUL", zkevm_opcode::MUL, 2}, {"ISZERO", zkevm_opcode::ISZERO, 1}, {"DIV", zkevm_opcode::DIV, 2}};
static const opinfo &op_of(const std::string &n) { for (auto &o : OPS) if (n == o.name) return o; throw std::runtime_error("no such operation"); }
const wide W256 = wide(1) << 256;
static wide meaning(const std::string &op, wide a, wide b) {
    if (op == "ADD") return (a + b) % W256;
    if (op == "SUB") return (a + W256 - b) % W256;
    if (op == "MUL") return a * b % W256;
    if (op == "DIV") return b == 0 ? wide(0) : a / b;
    return a == 0;
}
static zkevm_word_type word(const vf::val &v) { return zkevm_word_type::of(v); }
struct step { std::string op; vf::val a, b; };
struct run {                                               // a circuit filled in with a sequence of operations
    assignment<arith> as;
    circuit<arith> bp;
    std::unique_ptr<zkevm_circuit<fp>> z;
    std::vector<std::pair<std::size_t, std::size_t>> rows;   // first row and number of rows of each operation
    std::vector<vf::val> left;                             // what is on the stack afterwards, top first
    run(const std::vector<step> &s, std::size_t start) : as(0, 0, 0, 0) {
        z.reset(new zkevm_circuit<fp>(as, bp, start));
        zkevm_machine_interface m;
        for (auto &x : s) {
            std::size_t before = z->get_current_row();
            if (op_of(x.op).words == 2) m.stack.push(word(x.b));
            m.stack.push(word(x.a));
            z->assign_opcode(op_of(x.op).code, m);
            rows.push_back({before, z->get_current_row() - before});
        }
        z->finalize_test();
    }
    // the gates' constraints that do not vanish, as text
    std::string broken() {
        for (auto &g : bp.gates()) for (std::size_t r = 0; r < as.rows_amount(); r++) {
            if (as.cell(var::selector, g.selector_index, r) == num(0)) continue;
            for (std::size_t i = 0; i < g.constraints.size(); i++)
                if (!(g.constraints[i].evaluate(r, as) == num(0))) return "constraint " + std::to_string(i) + " of gate " + std::to_string(g.selector_index) + " does not hold in row " + std::to_string(r);
        }
        return "";
    }
};
static vf::val V(wide v) { return vf::known(v); }
