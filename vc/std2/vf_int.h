// Whole numbers without bound, and a field whose powers in use are below its modulus.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
std::uint64_t __vf_int_of(std::int64_t);
std::uint64_t __vf_int_ofu(std::uint64_t);
std::uint64_t __vf_int_add(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_sub(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_mul(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_div(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_mod(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_and(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_shl(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_shr(std::uint64_t, std::uint64_t);
bool __vf_int_lt(std::uint64_t, std::uint64_t);
bool __vf_int_eq(std::uint64_t, std::uint64_t);
std::uint64_t __vf_int_get(std::uint64_t);
std::uint64_t __vf_int_pow(std::uint64_t base, std::uint64_t k);
}
struct vf_int {
    std::uint64_t h;
    vf_int() : h(__vf_int_of(0)) {}
    vf_int(int v) : h(__vf_int_of(v)) {}
    vf_int(long v) : h(__vf_int_of(v)) {}
    vf_int(long long v) : h(__vf_int_of(v)) {}
    vf_int(bool v) : h(__vf_int_of(v)) {}
    vf_int(unsigned v) : h(__vf_int_ofu(v)) {}
    vf_int(unsigned long v) : h(__vf_int_ofu(v)) {}
    vf_int(unsigned long long v) : h(__vf_int_ofu(v)) {}
    static vf_int raw(std::uint64_t x) { vf_int r; r.h = x; return r; }
    explicit operator std::size_t() const { return __vf_int_get(h); }
    explicit operator int() const { return (int)__vf_int_get(h); }
    explicit operator unsigned() const { return (unsigned)__vf_int_get(h); }
    explicit operator bool() const { return !__vf_int_eq(h, __vf_int_of(0)); }
#define OP(sym, name) \
    friend vf_int operator sym(const vf_int &a, const vf_int &b) { return raw(__vf_int_##name(a.h, b.h)); } \
    vf_int &operator sym##=(const vf_int &b) { h = __vf_int_##name(h, b.h); return *this; }
    OP(+, add) OP(-, sub) OP(*, mul) OP(/, div) OP(%, mod) OP(&, and)
#undef OP
    friend vf_int operator<<(const vf_int &a, std::size_t k) { return raw(__vf_int_shl(a.h, k)); }
    friend vf_int operator>>(const vf_int &a, std::size_t k) { return raw(__vf_int_shr(a.h, k)); }
    vf_int &operator<<=(std::size_t k) { h = __vf_int_shl(h, k); return *this; }
    vf_int &operator>>=(std::size_t k) { h = __vf_int_shr(h, k); return *this; }
    vf_int &operator++() { h = __vf_int_add(h, __vf_int_of(1)); return *this; }
    vf_int operator++(int) { vf_int t = *this; ++*this; return t; }
    friend bool operator==(const vf_int &a, const vf_int &b) { return __vf_int_eq(a.h, b.h); }
    friend bool operator!=(const vf_int &a, const vf_int &b) { return !__vf_int_eq(a.h, b.h); }
    friend bool operator<(const vf_int &a, const vf_int &b) { return __vf_int_lt(a.h, b.h); }
    friend bool operator>(const vf_int &a, const vf_int &b) { return __vf_int_lt(b.h, a.h); }
    friend bool operator<=(const vf_int &a, const vf_int &b) { return !__vf_int_lt(b.h, a.h); }
    friend bool operator>=(const vf_int &a, const vf_int &b) { return !__vf_int_lt(a.h, b.h); }
    friend void divide_qr(const vf_int &n, const vf_int &d, vf_int &q, vf_int &r) {
        std::uint64_t x = n.h, y = d.h;
        q.h = __vf_int_div(x, y); r.h = __vf_int_mod(x, y);
    }
};
struct vf_field {
    typedef vf_int integral_type;
    struct value_type {
        vf_int data; std::size_t base;
        value_type(std::size_t b) : data(b), base(b) {}
        value_type pow(std::size_t k) const { value_type r(base); r.data = vf_int::raw(__vf_int_pow(base, k)); return r; }
    };
};
