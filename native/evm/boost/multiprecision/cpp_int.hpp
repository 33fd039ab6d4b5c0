// Stand-ins for the number types of crypto3's multiprecision library.  A number is a wide integer, or a node of a
// formula over unknown words; what is asked of a formula is answered by a script and written down.
#pragma once
#include <cstddef>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
typedef unsigned _BitInt(640) wide;
inline std::string text(wide x) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[(unsigned)(x & 15)]); x >>= 4; } while (x); return s; }
inline wide wide_of(const std::string &s) { wide r = 0; for (char c : s) r = r * 16 + (c >= 'a' ? c - 'a' + 10 : c - '0'); return r; }
namespace vf {
    struct node { char op; int a, b; wide v; };            // c: constant v, x: unknown word number a, + - * / %: of a and b, i: inverse of a modulo v
    struct formulas {
        std::vector<node> nodes;
        struct question { char rel; int a, b; bool yes; };
        std::vector<question> asked;
        std::vector<bool> script;
        std::size_t limit = 200;
        bool sampled = false;                              // answers are those of sample words instead of the script's
        std::vector<wide> at;                              // the value of each node for the sample words
    };
    inline formulas *F = nullptr;
    struct unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
    struct val { wide v; int n; };                         // n < 0: the number v
    constexpr val known(wide v) { return val{v, -1}; }
    inline int node_of(const val &x) { if (x.n >= 0) return x.n; F->nodes.push_back({'c', 0, 0, x.v}); F->at.push_back(x.v); return F->nodes.size() - 1; }
    inline wide at(const val &x) { return x.n < 0 ? x.v : F->at[x.n]; }
    inline val make(char op, const val &a, const val &b) { int x = node_of(a), y = node_of(b); F->nodes.push_back({op, x, y, 0}); F->at.push_back(op == '%' && F->at[y] != 0 ? F->at[x] % F->at[y] : wide(0)); return val{0, (int)F->nodes.size() - 1}; }
    constexpr val op(char o, const val &a, const val &b, wide m) {       // the operation on whole numbers, then the remainder by m
        if (a.n < 0 && b.n < 0) {
            switch (o) {
                case '+': return known((a.v + b.v) % m);
                case '-': return known(a.v >= b.v ? (a.v - b.v) % m : (m - (b.v - a.v) % m) % m);
                case '*': return known(a.v == 0 || b.v == 0 ? wide(0) : a.v == 1 ? b.v % m : b.v == 1 ? a.v % m : (a.v * b.v) % m);
                case '/': if (b.v == 0) throw unsupported("division by zero"); return known((a.v / b.v) % m);
                default: if (b.v == 0) throw unsupported("division by zero"); return known((a.v % b.v) % m);
            }
        }
        val r = make('%', make(o, a, b), known(m));
        if (F->sampled) F->at[r.n] = op(o, known(at(a)), known(at(b)), m).v;
        return r;
    }
    inline bool ask(char rel, const val &a, const val &b) {
        std::size_t k = F->asked.size();
        if (k >= F->limit) throw unsupported("more questions than the limit");
        bool yes = F->sampled ? (rel == '=' ? at(a) == at(b) : at(a) < at(b)) : k < F->script.size() ? F->script[k] : false;
        int x = node_of(a), y = node_of(b);
        F->asked.push_back({rel, x, y, yes});
        return yes;
    }
    constexpr bool equal(const val &a, const val &b) { return a.n < 0 && b.n < 0 ? a.v == b.v : ask('=', a, b); }
    constexpr bool less(const val &a, const val &b) { return a.n < 0 && b.n < 0 ? a.v < b.v : ask('<', a, b); }
}
namespace boost { namespace multiprecision {
    enum expression_template_option { et_off, et_on };
    namespace backends {
        template<unsigned Bits> struct cpp_int_modular_backend { vf::val v; };
        template<class B> struct modular_params { wide m; constexpr modular_params(const B &b) : m(b.v.v) {} };
        template<class B, const modular_params<B> &P> struct modular_params_ct { static constexpr wide modulus() { return P.m; } };
        template<class B, class P> struct modular_adaptor { vf::val v; constexpr modular_adaptor(vf::val x) : v(x) {} constexpr modular_adaptor(const B &b) : v(b.v) {} };
        struct field_backend { vf::val v; };
        template<class B> struct modulus;
        template<unsigned N> struct modulus<cpp_int_modular_backend<N>> { static constexpr wide value() { return wide(1) << N; } };
        template<class B, class P> struct modulus<modular_adaptor<B, P>> { static constexpr wide value() { return P::modulus(); } };
        // the base field of alt_bn128
        template<> struct modulus<field_backend> { static constexpr wide value() { return ((((wide(0x30644e72e131a029ull) << 64) + wide(0xb85045b68181585dull)) << 64) + wide(0x97816a916871ca8dull) << 64) + wide(0x3c208c16d87cfd47ull); } };
    }
    template<class B, expression_template_option O = et_off> struct number {
        typedef B backend_type;
        vf::val v;
        static constexpr wide M() { return backends::modulus<B>::value(); }
        static constexpr number of(const vf::val &x) { number r; r.v = x; return r; }
        static constexpr number cut(const vf::val &x) { return x.n < 0 ? of(vf::known(x.v % M())) : of(vf::make('%', x, vf::known(M()))); }
        constexpr number() : v(vf::known(0)) {}
        template<class T, class = typename std::enable_if<std::is_integral<T>::value>::type> constexpr number(T x) : v(std::is_signed<T>::value && x < 0 ? vf::known(M() - wide(-(__int128)x) % M()) : vf::known(wide((unsigned __int128)x) % M())) {}
        constexpr number(const B &b) : v(cut(b.v).v) {}
        template<class C> constexpr explicit number(const number<C> &x) : v(cut(x.v).v) {}
        constexpr B backend() const { return B{v}; }
        explicit operator std::size_t() const { if (v.n >= 0) throw vf::unsupported("an unknown as an index"); return (std::size_t)v.v; }
        friend constexpr number operator+(const number &a, const number &b) { return of(vf::op('+', a.v, b.v, M())); }
        friend constexpr number operator-(const number &a, const number &b) { return of(vf::op('-', a.v, b.v, M())); }
        friend constexpr number operator*(const number &a, const number &b) { return of(vf::op('*', a.v, b.v, M())); }
        friend constexpr number operator/(const number &a, const number &b) { return of(vf::op('/', a.v, b.v, M())); }
        friend constexpr number operator%(const number &a, const number &b) { return of(vf::op('%', a.v, b.v, M())); }
        friend constexpr number operator&(const number &a, const number &b) {
            if (a.v.n < 0 && b.v.n < 0) return of(vf::known(a.v.v & b.v.v));
            const number &x = a.v.n < 0 ? b : a, &m = a.v.n < 0 ? a : b;
            if (m.v.n >= 0 || (m.v.v & (m.v.v + 1)) != 0) throw vf::unsupported("and with something other than the lowest bits");
            return of(vf::make('%', x.v, vf::known(m.v.v + 1)));
        }
        friend constexpr number operator|(const number &a, const number &b) { if (a.v.n >= 0 || b.v.n >= 0) throw vf::unsupported("or of unknowns"); return of(vf::known(a.v.v | b.v.v)); }
        friend constexpr number operator^(const number &a, const number &b) { if (a.v.n >= 0 || b.v.n >= 0) throw vf::unsupported("exclusive or of unknowns"); return of(vf::known(a.v.v ^ b.v.v)); }
        friend constexpr number operator<<(const number &a, std::size_t k) { return k >= 320 ? number() : of(vf::op('*', a.v, vf::known(wide(1) << k), M())); }
        friend constexpr number operator>>(const number &a, std::size_t k) { return k >= 320 ? number() : of(vf::op('/', a.v, vf::known(wide(1) << k), M())); }
#define VF_SET(sym, T) constexpr number &operator sym##=(const T &b) { return *this = *this sym b; }
        VF_SET(+, number) VF_SET(-, number) VF_SET(*, number) VF_SET(/, number) VF_SET(%, number) VF_SET(&, number) VF_SET(|, number) VF_SET(^, number) VF_SET(<<, std::size_t) VF_SET(>>, std::size_t)
#undef VF_SET
        constexpr number &operator++() { return *this += number(1); }
        constexpr number operator++(int) { number r = *this; *this += number(1); return r; }
        friend constexpr bool operator==(const number &a, const number &b) { return vf::equal(a.v, b.v); }
        friend constexpr bool operator!=(const number &a, const number &b) { return !vf::equal(a.v, b.v); }
        friend constexpr bool operator<(const number &a, const number &b) { return vf::less(a.v, b.v); }
        friend constexpr bool operator>(const number &a, const number &b) { return vf::less(b.v, a.v); }
        friend constexpr bool operator<=(const number &a, const number &b) { return !vf::less(b.v, a.v); }
        friend constexpr bool operator>=(const number &a, const number &b) { return !vf::less(a.v, b.v); }
    };
    template<class B, expression_template_option O> std::ostream &operator<<(std::ostream &o, const number<B, O> &a) { return o << (a.v.n >= 0 ? "?" : text(a.v.v)); }
    template<class B, expression_template_option O> void divide_qr(const number<B, O> &a, const number<B, O> &b, number<B, O> &q, number<B, O> &r) { number<B, O> x = a / b, y = a % b; q = x; r = y; }
    template<class B, expression_template_option O> bool bit_test(const number<B, O> &a, std::size_t k) { return (a.v.v >> k & 1) != 0; }
}}
namespace std {
    template<unsigned N> struct numeric_limits<boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<N>>> {
        typedef boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<N>> T;
        static constexpr bool is_specialized = true, is_integer = true, is_signed = false, is_bounded = true, is_modulo = true, is_exact = true, has_infinity = false, has_quiet_NaN = false;
        static constexpr int radix = 2, digits = N, digits10 = N * 3 / 10;
        static constexpr T max() { return T::of(vf::known((wide(1) << N) - 1)); }
        static constexpr T min() { return T(); }
    };
}
template<unsigned N, char... C> constexpr boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<N>> vf_literal() {
    constexpr char s[] = {C..., 0};
    wide r = 0;
    for (int i = 2; s[i]; i++) r = r * 16 + (s[i] >= 'a' ? s[i] - 'a' + 10 : s[i] >= 'A' ? s[i] - 'A' + 10 : s[i] - '0');
    return boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<N>>::of(vf::known(r));
}
template<char... C> constexpr auto operator""_cppui_modular257() { return vf_literal<257, C...>(); }
template<char... C> constexpr auto operator""_cppui_modular256() { return vf_literal<256, C...>(); }
template<char... C> constexpr auto operator""_cppui_modular255() { return vf_literal<255, C...>(); }
template<char... C> constexpr auto operator""_cppui_modular254() { return vf_literal<254, C...>(); }
