// Entry points of the lookup-table contracts (T01, T02).
#include <vf_int.h>
#include <vector>
#include <set>
#include <nil/blueprint/detail/lookup_table_loaders.hpp>
namespace d = nil::blueprint::components::detail;
template<std::size_t B> struct field { typedef vf_int integral_type; typedef vf_int value_type; static constexpr std::size_t modulus_bits = B; static constexpr std::size_t number_bits = B; };
typedef std::vector<std::vector<vf_int>> R;
extern "C" {
#define ENTRY(B) \
bool vf_parse_##B(std::istream *s, std::size_t n, R *out) { return d::parse_lookup_table<field<B>>(*s, n, *out); } \
bool vf_load_##B(const std::set<std::string> *paths, std::size_t n, R *out) { return d::load_lookup_table<field<B>>(*paths, n, *out); } \
bool vf_bin_##B(const std::string *name, R *out) { return d::load_lookup_table_from_bin<field<B>>(*name, *out); }
ENTRY(8) ENTRY(61) ENTRY(254) ENTRY(255) ENTRY(256) ENTRY(381)
}
