// boost::bimap with known keys: an insertion whose left or right value is present already is refused.
#pragma once
#include <map>
namespace boost {
namespace bimaps {
template<class T> struct set_of { typedef T type; };
template<class T> struct unordered_set_of { typedef T type; };
template<class LT, class RT> class bimap {
    typedef typename LT::type L;
    typedef typename RT::type R;
public:
    struct view_left {
        typedef std::pair<L, R> value_type;
        typedef std::list_iterator<value_type> iterator; typedef iterator const_iterator;
        std::map<L, R> to; std::map<R, L> from;
        template<class P> bool insert(const P &x) { if (to.count(x.first) || from.count(x.second)) return false; to.emplace(x.first, x.second); from.emplace(x.second, x.first); return true; }
        const R &at(const L &k) const { return to.at(k); }
        std::size_t count(const L &k) const { return to.count(k); }
        std::size_t size() const { return to.size(); }
        iterator begin() const { return to.begin(); }
        iterator end() const { return to.end(); }
        iterator find(const L &k) const { return to.find(k); }
    };
    struct view_right {
        view_left *o;
        const L &at(const R &k) const { return o->from.at(k); }
        std::size_t count(const R &k) const { return o->from.count(k); }
        std::size_t size() const { return o->from.size(); }
    };
    typedef view_left left_map; typedef view_right right_map;
    view_left left; view_right right;
    bimap() { right.o = &left; }
    std::size_t size() const { return left.size(); }
    bool empty() const { return size() == 0; }
};
}
template<class L, class R> using bimap = bimaps::bimap<L, R>;
}
