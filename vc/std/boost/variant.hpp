#pragma once
#include <vf.h>
#include <typeinfo>
namespace boost {
// a tagged pair with the documented meaning of the two-alternative variant
template<class A, class B> class variant {
public:
    int w; A a; B b;
    variant() : w(0), a() {}
    variant(A x) : w(0), a(x) {}
    variant(B x) : w(1), b(x) {}
    int which() const { return w; }
    const std::type_info &type() const { if (w == 0) return typeid(A); return typeid(B); }
    bool operator==(const variant &o) const { if (w != o.w) return false; if (w == 0) return a == o.a; return b == o.b; }
    bool operator!=(const variant &o) const { return !(*this == o); }
    template<class T> const T &as() const;
};
template<class T, class A, class B> struct __vf_get;
template<class A, class B> struct __vf_get<A, A, B> { static const A &g(const variant<A, B> &v) { __vf_assert(v.w == 0); return v.a; } };
template<class A, class B> struct __vf_get<B, A, B> { static const B &g(const variant<A, B> &v) { __vf_assert(v.w == 1); return v.b; } };
template<class T, class A, class B> const T &get(const variant<A, B> &v) { return __vf_get<T, A, B>::g(v); }
}
