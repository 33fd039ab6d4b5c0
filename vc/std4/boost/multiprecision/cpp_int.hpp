// Machine words of the EVM: whole numbers (vf_int), with a modulus where the type has one.  Values computed by the compiler
// are small numbers or powers of two, kept in the clear; all others are handles.
#pragma once
#include <vf_int.h>
#include <cstddef>
extern "C" std::uint64_t __vf_int_cut(std::uint64_t, std::uint64_t);                     // remainder by the modulus
namespace boost { namespace multiprecision {
    namespace backends {
        template<unsigned Bits> struct cpp_int_modular_backend { std::uint64_t h; constexpr cpp_int_modular_backend(std::uint64_t x = 0) : h(x) {} };
        template<class B> struct modular_params { std::uint64_t m; constexpr modular_params(const B &b) : m(b.h) {} };
        template<class B, const modular_params<B> &P> struct modular_params_ct { static constexpr std::uint64_t modulus() { return P.m; } };
        template<class B, class P> struct modular_adaptor { B b; constexpr modular_adaptor(const B &x) : b(x) {} };
    }
    namespace vf {
        constexpr std::uint64_t top = std::uint64_t(1) << 63;
        void outside();                                                                  // not constexpr: what the compiler cannot keep in the clear
        constexpr std::uint64_t shl(std::uint64_t x, std::size_t k) {
            if (!__builtin_is_constant_evaluated()) return __vf_int_shl(x, k);
            if (x == 0) return 0;
            if (x & top) return x + k;
            if (k < 62 && !(x >> (62 - k))) return x << k;
            if (x & (x - 1)) outside();
            while (x > 1) { x >>= 1; k++; }
            return top + k;
        }
        constexpr std::uint64_t small(std::uint64_t x) { if (x & top) { if (x - top >= 62) outside(); return std::uint64_t(1) << (x - top); } return x; }
        constexpr std::uint64_t of(std::uint64_t v) { if (!__builtin_is_constant_evaluated()) return __vf_int_ofu(v); if (v >> 62) outside(); return v; }
#define VF_OP(name, sym) constexpr std::uint64_t name(std::uint64_t a, std::uint64_t b) { if (!__builtin_is_constant_evaluated()) return __vf_int_##name(a, b); return of(small(a) sym small(b)); }
        VF_OP(add, +) VF_OP(sub, -) VF_OP(mul, *) VF_OP(div, /) VF_OP(mod, %)
#undef VF_OP
        constexpr std::uint64_t both(std::uint64_t a, std::uint64_t b) { if (!__builtin_is_constant_evaluated()) return __vf_int_and(a, b); return of(small(a) & small(b)); }
        constexpr std::uint64_t shr(std::uint64_t a, std::size_t k) { if (!__builtin_is_constant_evaluated()) return __vf_int_shr(a, k); return of(small(a) >> k); }
        constexpr std::uint64_t cut(std::uint64_t a, std::uint64_t m) {
            if (!__builtin_is_constant_evaluated()) return __vf_int_cut(a, m);
            if (m & top) { if ((a & top) && a - top >= m - top) return 0; return a; }
            return of(small(a) % m);
        }
        template<class B> struct wrap { static constexpr std::uint64_t on(std::uint64_t x) { return x; } };
        template<unsigned N> struct wrap<backends::cpp_int_modular_backend<N>> { static constexpr std::uint64_t on(std::uint64_t x) { return cut(x, top + N); } };
        template<class B, class P> struct wrap<backends::modular_adaptor<B, P>> { static constexpr std::uint64_t on(std::uint64_t x) { return cut(x, P::modulus()); } };
    }
    template<class Backend> struct number {
        typedef Backend backend_type;
        std::uint64_t h;
        constexpr number() : h(vf::of(0)) {}
        constexpr number(int v) : h(vf::of(v)) {}
        constexpr number(unsigned v) : h(vf::of(v)) {}
        constexpr number(long v) : h(vf::of(v)) {}
        constexpr number(unsigned long v) : h(vf::of(v)) {}
        constexpr number(const backends::cpp_int_modular_backend<257> &b) : h(vf::wrap<Backend>::on(b.h)) {}
        template<class B, class P> constexpr number(const backends::modular_adaptor<B, P> &b) : h(vf::wrap<Backend>::on(b.b.h)) {}
        constexpr number(const number &o) : h(o.h) {}
        template<class B, class = decltype(sizeof(B))> constexpr explicit number(const number<B> &o) : h(vf::wrap<Backend>::on(o.h)) {}
        constexpr number &operator=(const number &o) { h = o.h; return *this; }
        constexpr backends::cpp_int_modular_backend<257> backend() const { return backends::cpp_int_modular_backend<257>(h); }
        explicit operator std::size_t() const { return __vf_int_get(h); }
#define VF_OP(sym, fn) \
        friend constexpr number operator sym(const number &a, const number &b) { number r(a); r.h = vf::wrap<Backend>::on(vf::fn(a.h, b.h)); return r; } \
        friend constexpr number operator sym(const number &a, int b) { return a sym number(b); } \
        constexpr number &operator sym##=(const number &b) { h = vf::wrap<Backend>::on(vf::fn(h, b.h)); return *this; }
        VF_OP(+, add) VF_OP(-, sub) VF_OP(*, mul) VF_OP(/, div) VF_OP(%, mod) VF_OP(&, both)
#undef VF_OP
#define VF_SH(sym, fn) \
        friend constexpr number operator sym(const number &a, std::size_t k) { number r(a); r.h = vf::wrap<Backend>::on(vf::fn(a.h, k)); return r; } \
        constexpr number &operator sym##=(std::size_t k) { h = vf::wrap<Backend>::on(vf::fn(h, k)); return *this; }
        VF_SH(<<, shl) VF_SH(>>, shr)
#undef VF_SH
        friend bool operator==(const number &a, const number &b) { return __vf_int_eq(a.h, b.h); }
        friend bool operator!=(const number &a, const number &b) { return !__vf_int_eq(a.h, b.h); }
        friend bool operator<(const number &a, const number &b) { return __vf_int_lt(a.h, b.h); }
    };
    namespace vf {
        constexpr std::uint64_t literal(const char *s) {                                 // 0x and hexadecimal digits
            std::uint64_t r = 0; std::size_t zeros = 0;
            s += 2;
            for (; *s; s++) {
                std::uint64_t d = *s >= 'a' ? *s - 'a' + 10 : *s >= 'A' ? *s - 'A' + 10 : *s - '0';
                if (d == 0 && r != 0) { zeros++; continue; }
                if (zeros) { r = shl(r, 4 * zeros); zeros = 0; }
                r = shl(r, 4); if (d) r = of(small(r) + d);
            }
            return shl(r, 4 * zeros);
        }
    }
}}
template<char... C> constexpr boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>> operator""_cppui_modular257() {
    constexpr char s[] = {C..., 0};
    constexpr std::uint64_t h = boost::multiprecision::vf::literal(s);
    boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<257>> r(0);
    r.h = h;
    return r;
}
