// Declarations the verification-condition generator gives meaning to.  Nothing here has a body: each
// function is an assumed contract of the standard library, listed in the trusted base.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
// finite sets of 32-bit numbers; an iterator is the element it stands on (or the end mark)
void __vf_set_init(void *s);
void __vf_set_copy(void *d, const void *s);
bool __vf_set_insert(void *s, std::uint32_t v);
std::size_t __vf_set_erase(void *s, std::uint32_t v);
bool __vf_set_has(const void *s, std::uint32_t v);
bool __vf_set_empty(const void *s);
std::size_t __vf_set_size(const void *s);
std::int64_t __vf_set_end(const void *s);
std::int64_t __vf_set_lb(const void *s, std::int64_t v);     // first element >= v, or end
std::int64_t __vf_set_ub(const void *s, std::int64_t v);     // last element <= v, or -1
std::uint32_t __vf_set_deref(const void *s, std::int64_t it);
bool __vf_set_equal(const void *a, const void *b);
void __vf_set_difference(const void *a, const void *b, void *out);
void __vf_set_intersection(const void *a, const void *b, void *out);
void __vf_set_union(const void *a, const void *b, void *out);
void __vf_assert(bool c);
void __vf_assert_not_both(bool c, bool d);
void __vf_assume(bool c);
void __vf_unreachable();
}
