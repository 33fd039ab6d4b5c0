// Text: strings and streams as values.  Every operation is an assumed contract of the standard library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <utility>
#include <bits/stl_algobase.h>
#include <vf.h>
extern "C" {
void __vf_str_empty(void *s);
void __vf_str_lit(void *s, const char *p);
void __vf_str_lit_n(void *s, const char *p, std::size_t n);
void __vf_str_copy(void *d, const void *s);
void __vf_str_append(void *d, const void *s);
void __vf_str_push(void *d, char c);
bool __vf_str_eq(const void *a, const void *b);
bool __vf_str_less(const void *a, const void *b);
std::size_t __vf_str_size(const void *s);
std::size_t __vf_str_find(const void *s, const void *t, std::size_t from);
void __vf_str_sub(void *d, const void *s, std::size_t from, std::size_t n);
}
namespace std {
typedef ptrdiff_t streamsize;
template<class C> struct char_traits;
template<class T> class allocator;
template<class C, class T = char_traits<C>, class A = allocator<C>> class basic_string;
template<class C, class T, class A> class basic_string {
    int64_t h;
public:
    typedef C value_type;
    typedef size_t size_type;
    static const size_t npos = -1;
    struct iterator { const basic_string *s; int64_t at; };
    typedef iterator const_iterator;
    basic_string() { __vf_str_empty(this); }
    basic_string(const C *p) { __vf_str_lit(this, p); }
    basic_string(const C *p, size_t n) { __vf_str_lit_n(this, p, n); }
    basic_string(const basic_string &o) { __vf_str_copy(this, &o); }
    basic_string(basic_string &&o) { __vf_str_copy(this, &o); }
    basic_string &operator=(const basic_string &o) { __vf_str_copy(this, &o); return *this; }
    basic_string &operator=(basic_string &&o) { __vf_str_copy(this, &o); return *this; }
    basic_string &operator=(const C *p) { __vf_str_lit(this, p); return *this; }
    basic_string &operator+=(const basic_string &o) { __vf_str_append(this, &o); return *this; }
    basic_string &operator+=(const C *p) { basic_string t(p); __vf_str_append(this, &t); return *this; }
    basic_string &operator+=(C c) { __vf_str_push(this, c); return *this; }
    basic_string &append(const basic_string &o) { return *this += o; }
    void push_back(C c) { __vf_str_push(this, c); }
    void clear() { __vf_str_empty(this); }
    void swap(basic_string &o) { basic_string t(*this); *this = o; o = t; }
    size_t size() const { return __vf_str_size(this); }
    size_t length() const { return size(); }
    bool empty() const { return size() == 0; }
    size_t find(const basic_string &t, size_t from = 0) const { return __vf_str_find(this, &t, from); }
    size_t find(const C *p, size_t from = 0) const { basic_string t(p); return __vf_str_find(this, &t, from); }
    size_t find(C c, size_t from = 0) const { basic_string t; t += c; return __vf_str_find(this, &t, from); }
    basic_string substr(size_t from = 0, size_t n = npos) const { basic_string r; __vf_str_sub(&r, this, from, n); return r; }
    iterator begin() const { return iterator{this, 0}; }
    iterator end() const { return iterator{this, 1}; }
    const_iterator cbegin() const { return begin(); }
    const_iterator cend() const { return end(); }
};
typedef basic_string<char> string;
inline string operator+(const string &a, const string &b) { string r(a); r += b; return r; }
inline string operator+(const string &a, const char *b) { string r(a); r += b; return r; }
inline string operator+(const char *a, const string &b) { string r(a); r += b; return r; }
inline bool operator==(const string &a, const string &b) { return __vf_str_eq(&a, &b); }
inline bool operator==(const string &a, const char *b) { string t(b); return __vf_str_eq(&a, &t); }
inline bool operator==(const char *b, const string &a) { string t(b); return __vf_str_eq(&a, &t); }
inline bool operator!=(const string &a, const string &b) { return !(a == b); }
inline bool operator!=(const string &a, const char *b) { return !(a == b); }
inline bool operator!=(const char *a, const string &b) { return !(a == b); }
inline bool operator<(const string &a, const string &b) { return __vf_str_less(&a, &b); }

// a stream out is the text written so far
template<class C, class T = char_traits<C>> class basic_ostream {
public:
    string text_;
    basic_ostream() {}
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &put(C c) { text_ += c; return *this; }
    basic_ostream &write(const C *p, streamsize n) { text_ += string(p, n); return *this; }
    basic_ostream &flush() { return *this; }
};
typedef basic_ostream<char> ostream;
inline ostream &operator<<(ostream &o, const char *p) { o.text_ += p; return o; }
inline ostream &operator<<(ostream &o, const string &p) { o.text_ += p; return o; }
inline ostream &operator<<(ostream &o, char c) { o.text_ += c; return o; }
extern "C" void __vf_stream_other(void *o);
inline ostream &operator<<(ostream &o, bool) { __vf_stream_other(&o); return o; }
inline ostream &operator<<(ostream &o, int) { __vf_stream_other(&o); return o; }
inline ostream &operator<<(ostream &o, unsigned) { __vf_stream_other(&o); return o; }
inline ostream &operator<<(ostream &o, long) { __vf_stream_other(&o); return o; }
inline ostream &operator<<(ostream &o, unsigned long) { __vf_stream_other(&o); return o; }
inline ostream &operator<<(ostream &o, const void *) { __vf_stream_other(&o); return o; }
inline ostream &endl(ostream &o) { o.text_ += '\n'; return o; }
inline ostream &flush(ostream &o) { return o; }
template<class C, class T = char_traits<C>> class basic_ostringstream : public basic_ostream<C, T> {
public:
    string str() const { return this->text_; }
};
typedef basic_ostringstream<char> ostringstream;
extern ostream cout, cerr, clog;
}
