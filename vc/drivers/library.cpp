// Entry points of the lookup library contracts (L01): a table is asked for by the name of one of its parts.
#include <vf_int.h>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <memory>
#include <iostream>
#define CRYPTO3_BLUEPRINT_COMPONENT_MANIFEST_HPP      // not used by the library
#define CRYPTO3_BLUEPRINT_COMPONENTS_ASSERT_HPP
#include <boost/assert.hpp>
#define BLUEPRINT_RELEASE_ASSERT(x) __vf_assert(x)
extern "C" bool __vf_int_bit(std::uint64_t, std::size_t);
namespace boost { namespace multiprecision { inline bool bit_test(const vf_int &x, std::size_t k) { return __vf_int_bit(x.h, k); } } }
#include <nil/blueprint/lookup_library.hpp>
extern "C" std::uint64_t __vf_int_pow(std::uint64_t, std::uint64_t);
struct field {
    typedef vf_int integral_type;
    static constexpr std::size_t modulus_bits = 255, number_bits = 255;
    struct value_type {
        vf_int data;
        value_type() {}
        value_type(const vf_int &x) : data(x) {}
        value_type(int x) : data(x) {}
        value_type(unsigned x) : data(x) {}
        value_type(unsigned long x) : data(x) {}
        value_type pow(std::size_t k) const { return value_type(vf_int::raw(__vf_int_pow((std::size_t)data, k))); }
    };
};
typedef nil::blueprint::lookup_library<field> library;
extern "C" {
void vf_table(const char *name, std::vector<std::vector<field::value_type>> *out, std::size_t *which, std::size_t *size, std::size_t *parts, std::size_t *begin, std::size_t *end, std::size_t *tables) {
    library l;
    std::string s(name);
    std::string part = s.substr(s.find("/") + 1), table = s.substr(0, s.find("/"));
    l.reserve_table(s);
    *tables = l.get_reserved_tables().size();
    auto t = l.get_reserved_tables().at(table);
    *out = t->get_table();
    *parts = t->subtables.size();
    auto &u = t->subtables.at(part);
    *size = u.column_indices.size();
    for (std::size_t i = 0; i < u.column_indices.size(); i++) which[i] = u.column_indices[i];
    *begin = u.begin; *end = u.end;
}
}
