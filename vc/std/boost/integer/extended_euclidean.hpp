#pragma once
#include <vf.h>
extern "C" void __vf_extgcd(void *out, std::int64_t m, std::int64_t n);
namespace boost { namespace integer {
template<class Z> struct euclidean_result_t { Z gcd; Z x; Z y; };
template<class Z> euclidean_result_t<Z> extended_euclidean(Z m, Z n) {
    std::int64_t o[3]; __vf_extgcd(o, m, n);
    euclidean_result_t<Z> r; r.gcd = Z(o[0]); r.x = Z(o[1]); r.y = Z(o[2]); return r;
}
} }
