// Two fields the components are instantiated with: numbers modulo a prime chosen at run time, and polynomials with
// whole coefficients in named unknowns, which stand for an element of any prime field.
#pragma once
#include <cstdint>
#include <map>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/multiprecision/cpp_int.hpp>
namespace vf {
namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_int_backend<512, 512, mp::unsigned_magnitude, mp::unchecked, void>> uint;
typedef mp::number<mp::cpp_int_backend<1024, 1024, mp::unsigned_magnitude, mp::unchecked, void>> wide;
struct unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- numbers modulo a prime
extern std::uint64_t prime;
struct num {
    struct number {                                        // the representative, as crypto3 shows it
        std::uint64_t v = 0;
        operator uint() const { return uint(v); }
        explicit operator std::uint64_t() const { return v; }
        bool operator==(const number &o) const { return v == o.v; }
        bool operator!=(const number &o) const { return v != o.v; }
        bool operator<(const number &o) const { return v < o.v; }
        friend std::ostream &operator<<(std::ostream &o, const number &n) { return o << n.v; }
    } data;
    typedef uint integral_type;
    num() { }
    template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
    num(T x) { if (std::is_signed<T>::value && x < 0) data.v = (prime - (std::uint64_t)(-(__int128)x % prime)) % prime; else data.v = (std::uint64_t)x % prime; }
    template<typename B, mp::expression_template_option O> num(const mp::number<B, O> &x) { mp::number<B, O> r = x % prime; if (r < 0) r += prime; data.v = (std::uint64_t)r; }
    num(const number &x) : data(x) { }
    static num zero() { return num(0); }
    static num one() { return num(1); }
    static num drawn(std::uint64_t s) { return num(s); }
    bool is_zero() const { return !data.v; }
    bool is_one() const { return data.v == 1 % prime; }
    static num raw(std::uint64_t v) { num r; r.data.v = v; return r; }
    friend num operator+(const num &a, const num &b) { std::uint64_t s = a.data.v + b.data.v; return raw(s >= prime ? s - prime : s); }
    friend num operator-(const num &a, const num &b) { return raw(a.data.v >= b.data.v ? a.data.v - b.data.v : a.data.v + prime - b.data.v); }
    friend num operator*(const num &a, const num &b) { return raw((unsigned __int128)a.data.v * b.data.v % prime); }
    friend num operator/(const num &a, const num &b) { return a * b.inversed(); }
    num operator-() const { return zero() - *this; }
    num &operator+=(const num &o) { return *this = *this + o; }
    num &operator-=(const num &o) { return *this = *this - o; }
    num &operator*=(const num &o) { return *this = *this * o; }
    num &operator/=(const num &o) { return *this = *this / o; }
    num &operator++() { return *this += 1; }
    friend bool operator==(const num &a, const num &b) { return a.data.v == b.data.v; }
    friend bool operator!=(const num &a, const num &b) { return a.data.v != b.data.v; }
    friend bool operator<(const num &a, const num &b) { return a.data.v < b.data.v; }
    friend bool operator>(const num &a, const num &b) { return b < a; }
    friend bool operator<=(const num &a, const num &b) { return !(b < a); }
    friend bool operator>=(const num &a, const num &b) { return !(a < b); }
    num squared() const { return *this * *this; }
    num doubled() const { return *this + *this; }
    template<typename T> num pow(const T &e0) const { uint e(e0); num r = one(), b = *this; while (e != 0) { if (e & 1) r = r * b; b = b * b; e >>= 1; } return r; }
    num inversed() const { if (is_zero()) throw unsupported("inverse of zero"); return pow(prime - 2); }
    bool is_square() const { return is_zero() || prime == 2 || pow((prime - 1) / 2) == one(); }
    num sqrt() const { for (std::uint64_t i = 0; i <= prime / 2; i++) if (num(i).squared() == *this) return num(i); throw unsupported("no root"); }
    friend std::ostream &operator<<(std::ostream &o, const num &n) { return o << n.data.v; }
};
struct fp {
    typedef num value_type;
    typedef uint integral_type;
    typedef wide extended_integral_type;
    static constexpr std::size_t modulus_bits = 255, number_bits = 255, arity = 1, value_bits = 255;
    static integral_type modulus() { return prime; }
};

// ---- polynomials
typedef mp::cpp_int whole;
typedef std::map<int, int> monomial;                       // unknown -> exponent
typedef std::map<monomial, whole> poly;                    // without zero coefficients
struct sym;
struct world {                                             // one symbolic run
    std::vector<std::string> names;
    std::vector<bool> script;                              // what the run decides at each question
    std::vector<std::pair<poly, bool>> asked;              // polynomial, taken as zero?
    std::vector<std::pair<poly, int>> inverses, defs;      // polynomial, the unknown that is its inverse / that names it
    std::vector<poly> nonzero;                             // what was inverted and must not be zero
    std::map<poly, bool> known;
    std::size_t limit = 60;
    bool formal = false;                                   // unknowns are independent: equal means identical, and any order will do
    bool ordered = false;                                  // values are put in some order: equal ones are found by asking
    std::vector<poly> ranked;
    int fresh(const std::string &n) { names.push_back(n); return names.size() - 1; }
};
extern world *W;
inline poly operator+(const poly &a, const poly &b) { poly r = a; for (auto &t : b) { auto &c = r[t.first]; c += t.second; if (c == 0) r.erase(t.first); } return r; }
inline poly operator*(const poly &a, const whole &k) { poly r; if (k != 0) for (auto &t : a) r[t.first] = t.second * k; return r; }
inline poly operator*(const poly &a, const poly &b) {
    poly r;
    for (auto &s : a) for (auto &t : b) {
        monomial m = s.first;
        for (auto &e : t.first) m[e.first] += e.second;
        auto &c = r[m]; c += s.second * t.second; if (c == 0) r.erase(m);
    }
    return r;
}
struct sym {
    struct number {
        poly p;
        bool constant() const { return p.empty() || (p.size() == 1 && p.begin()->first.empty()); }
        whole value() const { if (!constant()) throw unsupported("the number behind an unknown"); return p.empty() ? whole(0) : p.begin()->second; }
        operator uint() const { whole v = value(); if (v < 0) throw unsupported("the number behind a negative constant"); return uint(v); }
        explicit operator std::uint64_t() const { return (std::uint64_t)value(); }
        bool operator==(const number &o) const { return p == o.p; }
        bool operator!=(const number &o) const { return p != o.p; }
        bool operator<(const number &o) const { return value() < o.value(); }
        friend std::ostream &operator<<(std::ostream &o, const number &n) { return o << "?"; }
    } data;
    typedef uint integral_type;
    sym() { }
    template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> sym(T x) { if (x) data.p[{}] = whole(x); }
    template<typename B, mp::expression_template_option O> sym(const mp::number<B, O> &x) { if (x != 0) data.p[{}] = whole(x); }
    sym(const number &x) : data(x) { }
    static sym of(const poly &p) {
        sym r; r.data.p = p;
        if (W && p.size() > W->limit) {                    // a name for something large
            for (auto &d : W->defs) if (d.first == p) return unknown(d.second);
            int k = W->fresh("d" + std::to_string(W->defs.size()));
            W->defs.push_back({p, k});
            return unknown(k);
        }
        return r;
    }
    static sym unknown(int k) { sym r; r.data.p[{{k, 1}}] = 1; return r; }
    static sym fresh(const std::string &n) { return unknown(W->fresh(n)); }
    static sym zero() { return sym(); }
    static sym one() { return sym(1); }
    friend sym operator+(const sym &a, const sym &b) { return of(a.data.p + b.data.p); }
    friend sym operator-(const sym &a, const sym &b) { return of(a.data.p + b.data.p * whole(-1)); }
    friend sym operator*(const sym &a, const sym &b) { return of(a.data.p * b.data.p); }
    friend sym operator/(const sym &a, const sym &b) { return a * b.inversed(); }
    sym operator-() const { return zero() - *this; }
    sym &operator+=(const sym &o) { return *this = *this + o; }
    sym &operator-=(const sym &o) { return *this = *this - o; }
    sym &operator*=(const sym &o) { return *this = *this * o; }
    sym &operator/=(const sym &o) { return *this = *this / o; }
    sym &operator++() { return *this += 1; }
    bool is_zero() const {
        if (data.p.empty()) return true;
        if (data.constant() || (W && W->formal)) return false;     // the prime is larger than the constants
        poly p = data.p; if (p.begin()->second < 0) p = p * whole(-1);
        auto it = W->known.find(p);
        if (it != W->known.end()) return it->second;
        std::size_t n = W->asked.size();
        bool b = n < W->script.size() ? bool(W->script[n]) : true;
        W->asked.push_back({p, b});
        if (W->asked.size() > 40) throw unsupported("too many cases");
        return W->known[p] = b;
    }
    bool is_one() const { return *this == one(); }
    friend bool operator==(const sym &a, const sym &b) { return (a - b).is_zero(); }
    friend bool operator!=(const sym &a, const sym &b) { return !(a == b); }
    friend bool operator<(const sym &a, const sym &b) {
        if (W && W->formal) return a.data.p < b.data.p;
        if (W && W->ordered) return rank(a) < rank(b);
        return a.data < b.data;
    }
    static std::size_t rank(const sym &a) {                // its place among the values met before it
        for (std::size_t i = 0; i < W->ranked.size(); i++) if (of(a.data.p + W->ranked[i] * whole(-1)).is_zero()) return i;
        W->ranked.push_back(a.data.p);
        return W->ranked.size() - 1;
    }
    static sym drawn(std::uint64_t s) { return W && W->formal ? fresh("r" + std::to_string(W->names.size())) : sym(s); }     // a random element
    friend bool operator>(const sym &a, const sym &b) { return b < a; }
    friend bool operator<=(const sym &a, const sym &b) { return !(b < a); }
    friend bool operator>=(const sym &a, const sym &b) { return !(a < b); }
    sym squared() const { return *this * *this; }
    sym doubled() const { return *this + *this; }
    template<typename T> sym pow(const T &e0) const { uint e(e0); if (e > 100000) throw unsupported("a large power"); sym r = one(), b = *this; while (e != 0) { if (e & 1) r = r * b; e >>= 1; if (e != 0) b = b * b; } return r; }
    sym inversed() const {
        if (data.constant() && (data.value() == 1 || data.value() == -1)) return *this;
        for (auto &i : W->inverses) if (i.first == data.p) return unknown(i.second);
        int k = W->fresh("i" + std::to_string(W->inverses.size()));
        W->inverses.push_back({data.p, k});
        W->nonzero.push_back(data.p);
        return unknown(k);
    }
    bool is_square() const { throw unsupported("a question of squares"); }
    sym sqrt() const { throw unsupported("a square root"); }
    friend std::ostream &operator<<(std::ostream &o, const sym &) { return o << "?"; }
};
struct sf {
    typedef sym value_type;
    typedef uint integral_type;
    typedef wide extended_integral_type;
    static constexpr std::size_t modulus_bits = 255, number_bits = 255, arity = 1, value_bits = 255;
    static integral_type modulus() { throw unsupported("the modulus"); }
};
}
