// The part of Boost.Spirit in use: a fixed number of unsigned numbers, white space skipped.  The grammar the code builds
// is recorded (how many numbers, which base, how many digits); reading a line with it is an assumed contract.
#pragma once
#include <vf_text.h>
#include <vector>
#include <type_traits>
extern "C" bool __vf_row_parse(const void *line, std::size_t count, std::size_t radix, std::size_t min, std::int64_t max, void *row);
namespace boost { 
namespace vf { struct lazy {}; 
template<class T> lazy operator<<(std::ostream &, const lazy &);
inline lazy operator<<(std::ostream &, const lazy &) { return lazy(); }
template<class T> lazy operator<<(const lazy &, const T &) { return lazy(); }
}
namespace spirit {
constexpr vf::lazy _1{}, _2{}, _3{}, _4{}, _val{};
namespace qi {
constexpr vf::lazy _1{}, _2{}, _3{}, _4{}, _val{};
namespace ascii { struct space_type {}; constexpr space_type space{}; }
using ascii::space_type;
struct unused_type {};
template<class T = unsigned, unsigned Radix = 10, unsigned Min = 1, int Max = -1> struct uint_parser { uint_parser() {} };
struct numbers { std::size_t count, radix, min; std::int64_t max; };
struct repeated {
    std::size_t n;
    template<class T, unsigned R, unsigned Mi, int Ma> numbers operator[](const uint_parser<T, R, Mi, Ma> &) const { return numbers{n, R, Mi, Ma}; }
};
inline repeated repeat(std::size_t n) { return repeated{n}; }
template<class It, class S = unused_type, class K = unused_type, class L = unused_type> struct rule {
    numbers g;
    rule() {}
    rule &operator=(const numbers &x) { g = x; return *this; }
    rule &operator%=(const numbers &x) { g = x; return *this; }
    void name(const char *) {}
};
template<class It, class S = unused_type, class K = unused_type, class L = unused_type> struct grammar {
    typedef grammar base_type;
    const rule<It, S, K, L> *start_;
    explicit grammar(const rule<It, S, K, L> &r) : start_(&r) {}
    grammar(const rule<It, S, K, L> &r, const char *) : start_(&r) {}
};
enum error_handler_result { fail, retry, accept, rethrow };
template<error_handler_result R, class Rule, class F> void on_error(Rule &, const F &) {}
template<class It, class S, class K, class L, class Sp, class T> bool phrase_parse(const It &a, const It &b, const grammar<It, S, K, L> &g, const Sp &, std::vector<T> &row) {
    __vf_assert(a.at == 0 && b.at == 1 && a.s == b.s);
    const numbers &x = g.start_->g;
    return __vf_row_parse(a.s, x.count, x.radix, x.min, x.max, &row);
}
}
}
}
