// Entry points of the splitting contracts (S01, S02).
#include <vf_int.h>
#include <vector>
#include <map>
#include <nil/blueprint/components/hashes/sha2/plonk/detail/split_functions.hpp>
namespace d = nil::blueprint::components::detail;
typedef std::array<std::vector<vf_int>, 2> R;
typedef std::vector<std::size_t> S;
extern "C" {
void vf_split(const std::vector<bool> *bits, const S *sizes, std::size_t base, R *out) { *out = d::split_and_sparse<vf_field>(*bits, *sizes, base); }
void vf_rev(const vf_int *v, const S *sizes, std::size_t base, R *out) { *out = d::reversed_sparse_and_split<vf_field>(*v, *sizes, base); }
void vf_rev_maj(const vf_int *v, const S *sizes, std::size_t base, R *out) { *out = d::reversed_sparse_and_split_maj<vf_field>(*v, *sizes, base); }
void vf_rev_ch(const vf_int *v, const S *sizes, std::size_t base, R *out) { *out = d::reversed_sparse_and_split_ch<vf_field>(*v, *sizes, base); }
}
