#pragma once
namespace std {
template<class C> struct __vf_ins : insert_iterator<C> { C *get() { return this->container; } };
inline insert_iterator<set<uint32_t>> set_difference(__vf_set_iterator a, __vf_set_iterator ae, __vf_set_iterator b, __vf_set_iterator be, insert_iterator<set<uint32_t>> o) {
    set<uint32_t> *out = static_cast<__vf_ins<set<uint32_t>> &>(o).get();
    __vf_assert(a.cur == __vf_set_lb(a.s, 0) && ae.cur == __vf_set_end(a.s) && ae.s == a.s && b.cur == __vf_set_lb(b.s, 0) && be.cur == __vf_set_end(b.s) && be.s == b.s);
    __vf_set_difference(a.s, b.s, out); return o;
}
inline insert_iterator<set<uint32_t>> set_intersection(__vf_set_iterator a, __vf_set_iterator ae, __vf_set_iterator b, __vf_set_iterator be, insert_iterator<set<uint32_t>> o) {
    set<uint32_t> *out = static_cast<__vf_ins<set<uint32_t>> &>(o).get();
    __vf_assert(a.cur == __vf_set_lb(a.s, 0) && ae.cur == __vf_set_end(a.s) && ae.s == a.s && b.cur == __vf_set_lb(b.s, 0) && be.cur == __vf_set_end(b.s) && be.s == b.s);
    __vf_set_intersection(a.s, b.s, out); return o;
}
inline insert_iterator<set<uint32_t>> set_union(__vf_set_iterator a, __vf_set_iterator ae, __vf_set_iterator b, __vf_set_iterator be, insert_iterator<set<uint32_t>> o) {
    set<uint32_t> *out = static_cast<__vf_ins<set<uint32_t>> &>(o).get();
    __vf_assert(a.cur == __vf_set_lb(a.s, 0) && ae.cur == __vf_set_end(a.s) && ae.s == a.s && b.cur == __vf_set_lb(b.s, 0) && be.cur == __vf_set_end(b.s) && be.s == b.s);
    __vf_set_union(a.s, b.s, out); return o;
}
}
