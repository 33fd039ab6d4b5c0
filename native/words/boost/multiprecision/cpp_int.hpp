// Stand-ins for the word types of crypto3's multiprecision library, over the compiler's wide integers.
#pragma once
#include <cstddef>
#include <string>
#include <type_traits>
typedef unsigned _BitInt(640) wide;
namespace boost { namespace multiprecision {
    namespace backends {
        template<unsigned Bits> struct cpp_int_modular_backend { wide v; };
        template<class B> struct modular_params { wide m; constexpr modular_params(const B &b) : m(b.v) {} };
        template<class B, const modular_params<B> &P> struct modular_params_ct { static constexpr wide modulus() { return P.m; } };
        template<class B, class P> struct modular_adaptor { wide v; constexpr modular_adaptor(wide x) : v(x) {} constexpr modular_adaptor(const B &b) : v(b.v) {} };
        template<class B> struct modulus;
        template<unsigned N> struct modulus<cpp_int_modular_backend<N>> { static constexpr wide value() { return wide(1) << N; } };
        template<class B, class P> struct modulus<modular_adaptor<B, P>> { static constexpr wide value() { return P::modulus(); } };
    }
    template<class B> struct number {
        typedef B backend_type;
        wide v;
        static constexpr number cut(wide x) { number r; r.v = x % backends::modulus<B>::value(); return r; }
        constexpr number() : v(0) {}
        template<class T, class = typename std::enable_if<std::is_integral<T>::value>::type> constexpr number(T x) : v(wide(x)) {}
        constexpr number(const B &b) : v(b.v % backends::modulus<B>::value()) {}
        template<class C> constexpr explicit number(const number<C> &x) : v(x.v % backends::modulus<B>::value()) {}
        constexpr B backend() const { return B{v}; }
        explicit operator std::size_t() const { return (std::size_t)v; }
        friend constexpr number operator+(const number &a, const number &b) { return cut(a.v + b.v); }
        friend constexpr number operator-(const number &a, const number &b) { return cut(a.v + backends::modulus<B>::value() - b.v); }
        friend constexpr number operator*(const number &a, const number &b) { return cut(a.v * b.v); }
        friend constexpr number operator/(const number &a, const number &b) { return cut(a.v / b.v); }
        friend constexpr number operator%(const number &a, const number &b) { return cut(a.v % b.v); }
        friend constexpr number operator&(const number &a, const number &b) { return cut(a.v & b.v); }
        friend constexpr number operator|(const number &a, const number &b) { return cut(a.v | b.v); }
        friend constexpr number operator^(const number &a, const number &b) { return cut(a.v ^ b.v); }
        friend constexpr number operator<<(const number &a, std::size_t k) { return k >= 320 ? number() : cut(a.v << k); }
        friend constexpr number operator>>(const number &a, std::size_t k) { return k >= 320 ? number() : cut(a.v >> k); }
#define VF_SET(sym, T) constexpr number &operator sym##=(const T &b) { return *this = *this sym b; }
        VF_SET(+, number) VF_SET(-, number) VF_SET(*, number) VF_SET(/, number) VF_SET(%, number) VF_SET(&, number) VF_SET(|, number) VF_SET(^, number) VF_SET(<<, std::size_t) VF_SET(>>, std::size_t)
#undef VF_SET
        constexpr number &operator++() { return *this += number(1); }
        friend constexpr bool operator==(const number &a, const number &b) { return a.v == b.v; }
        friend constexpr bool operator!=(const number &a, const number &b) { return a.v != b.v; }
        friend constexpr bool operator<(const number &a, const number &b) { return a.v < b.v; }
        friend constexpr bool operator>(const number &a, const number &b) { return a.v > b.v; }
        friend constexpr bool operator<=(const number &a, const number &b) { return a.v <= b.v; }
        friend constexpr bool operator>=(const number &a, const number &b) { return a.v >= b.v; }
    };
}}
template<char... C> constexpr boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>> operator""_cppui_modular257() {
    constexpr char s[] = {C..., 0};
    boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>> r;
    for (int i = 2; s[i]; i++) r.v = r.v * 16 + (s[i] >= 'a' ? s[i] - 'a' + 10 : s[i] >= 'A' ? s[i] - 'A' + 10 : s[i] - '0');
    return r;
}
inline std::string text(wide x) { std::string s; do { s.insert(s.begin(), "0123456789abcdef"[(unsigned)(x & 15)]); x >>= 4; } while (x); return s; }
inline wide wide_of(const std::string &s) { wide r = 0; for (char c : s) r = r * 16 + (c >= 'a' ? c - 'a' + 10 : c - '0'); return r; }
