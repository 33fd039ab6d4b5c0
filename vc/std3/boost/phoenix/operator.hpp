#pragma once
#include <boost/spirit/include/qi.hpp>
namespace boost { namespace phoenix {
template<class T> vf::lazy val(const T &) { return vf::lazy(); }
template<class T, class... A> vf::lazy construct(const A &...) { return vf::lazy(); }
} }
