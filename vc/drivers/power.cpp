// Entry points of the contract of the power function (P01).  The base is an element of an abstract monoid: the only
// things known about it are the product and the unit, so what holds for it holds for every associative multiplication.
#include <cstddef>
#include <cstdint>
extern "C" { std::uint64_t __vf_mon_unit(int); std::uint64_t __vf_mon_mul(std::uint64_t, std::uint64_t); }
struct mon {
    std::uint64_t h;
    constexpr mon() : h(0) {}
    constexpr mon(int i) : h(__vf_mon_unit(i)) {}
    constexpr mon operator*(const mon &o) const { mon r; r.h = __vf_mon_mul(h, o.h); return r; }
    constexpr mon &operator*=(const mon &o) { h = __vf_mon_mul(h, o.h); return *this; }
};
#include <nil/detail/static_pow.hpp>
#define ENTRY(name, U) extern "C" void vf_pow_##name(const mon *x, U n, mon *out) { *out = nil::crypto3::detail::pow(*x, n); }
ENTRY(u64, std::uint64_t)
ENTRY(u32, std::uint32_t)
ENTRY(u16, std::uint16_t)
ENTRY(i32, int)
ENTRY(i64, long)
