// boost::bimap of two sets of numbers: an insertion whose left or right value is present already is refused.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <utility>
#include <vf.h>
extern "C" {
void __vf_bi_init(void *m);
void __vf_bi_copy(void *m, const void *o);
bool __vf_bi_insert(void *m, std::uint64_t l, std::uint64_t r);
bool __vf_bi_has(const void *m, bool right, std::uint64_t k);
std::uint64_t __vf_bi_other(const void *m, bool right, std::uint64_t k);
std::size_t __vf_bi_size(const void *m);
}
namespace boost {
namespace bimaps {
template<class T> struct set_of { typedef T type; };
template<class T> struct unordered_set_of { typedef T type; };
template<class T> struct plain { typedef T type; };
template<class T> struct plain<set_of<T>> { typedef T type; };
template<class T> struct plain<unordered_set_of<T>> { typedef T type; };
template<class LT, class RT> class bimap {
    typedef typename plain<LT>::type L;
    typedef typename plain<RT>::type R;
public:
    struct relation { L left; R right; relation() {} relation(const L &l, const R &r) : left(l), right(r) {} };
    typedef relation value_type;
    template<class K, class V, bool right> struct view {
        int64_t h;
        struct ref { K first; V second; };
        struct iterator {
            const void *m; std::uint64_t k; bool end; ref r;
            const ref *operator->() { __vf_assert(!end); r.first = (K)k; r.second = (V)__vf_bi_other(m, right, k); return &r; }
            const ref &operator*() { return *operator->(); }
            bool operator==(const iterator &o) const { return end == o.end && (end || k == o.k); }
            bool operator!=(const iterator &o) const { return !(*this == o); }
        };
        typedef iterator const_iterator;
        iterator find(const K &k) const { iterator i; i.m = this; i.k = (std::uint64_t)k; i.end = !__vf_bi_has(this, right, (std::uint64_t)k); return i; }
        iterator end() const { iterator i; i.m = this; i.k = 0; i.end = true; return i; }
        std::size_t count(const K &k) const { return __vf_bi_has(this, right, (std::uint64_t)k) ? 1 : 0; }
        V at(const K &k) const { __vf_assert(__vf_bi_has(this, right, (std::uint64_t)k)); return (V)__vf_bi_other(this, right, (std::uint64_t)k); }
        std::size_t size() const { return __vf_bi_size(this); }
        bool insert(const ref &x) { return right ? __vf_bi_insert(this, (std::uint64_t)x.second, (std::uint64_t)x.first) : __vf_bi_insert(this, (std::uint64_t)x.first, (std::uint64_t)x.second); }
    };
    union { int64_t h; view<L, R, false> left; view<R, L, true> right; };
    bimap() { __vf_bi_init(this); }
    bimap(const bimap &o) { __vf_bi_copy(this, &o); }
    bimap &operator=(const bimap &o) { __vf_bi_copy(this, &o); return *this; }
    template<class I> bimap(I a, I b) { __vf_bi_init(this); for (; a != b; ++a) insert(*a); }
    bool insert(const relation &x) { return __vf_bi_insert(this, (std::uint64_t)x.left, (std::uint64_t)x.right); }
    std::size_t size() const { return __vf_bi_size(this); }
    bool empty() const { return size() == 0; }
};
}
template<class L, class R> using bimap = bimaps::bimap<L, R>;
}
