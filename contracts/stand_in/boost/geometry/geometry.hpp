// Stand-in for Boost.Geometry: the contract assumed of the spatial index.
//
// An rtree keeps every value inserted; within(area) selects the values whose
// point is inside area.  Boost requires of the caller that points in a
// spherical_equatorial system are (longitude, latitude) and that the ring of
// an area repeats its first point at its end.  Both are checked by the
// contracts that use this header; which values are inside is up to them.
#pragma once
#include <cstddef>
#include <initializer_list>
#include <iterator>
#include <type_traits>
#include <utility>
#include <vector>
namespace boost { namespace geometry {
struct degree {};
struct radian {};
namespace cs {
template <class U> struct spherical_equatorial {};
template <class U> struct geographic {};
struct cartesian {};
}
namespace model {
template <class T, std::size_t N, class C> struct point {
    T v[N];
    point() : v() {}
    point(const T& a, const T& b) : v() { v[0] = a; v[1] = b; }
    template <std::size_t K> const T& get() const { return v[K]; }
    template <std::size_t K> void set(const T& x) { v[K] = x; }
};
template <class P> struct ring : public std::vector<P> {
    ring() {}
    template <class I> ring(I b, I e) : std::vector<P>(b, e) {}
    ring(std::initializer_list<P> l) : std::vector<P>(l.begin(), l.end()) {}
};
template <class P> struct polygon {
    typedef ring<P> ring_type;
    ring_type m_outer;
    bool corrected = false;
    polygon() {}
    polygon(std::initializer_list<ring_type> l) : m_outer(l.size() > 0 ? *l.begin() : ring_type()) {}
    ring_type& outer() { return m_outer; }
    const ring_type& outer() const { return m_outer; }
};
}
template <std::size_t K, class P> auto get(const P& p) { return p.template get<K>(); }
template <std::size_t K, class P, class T> void set(P& p, const T& x) { p.template set<K>(x); }
template <class P> void append(model::polygon<P>& a, const P& p) { a.outer().push_back(p); }
template <class P> void append(model::ring<P>& a, const P& p) { a.push_back(p); }
template <class P> void correct(model::polygon<P>& a) { a.corrected = true; }
namespace index {
template <std::size_t N, std::size_t M = 0> struct rstar {};
template <std::size_t N, std::size_t M = 0> struct quadratic {};
template <std::size_t N, std::size_t M = 0> struct linear {};
template <class A> struct within_t { const A& area; };
template <class A> within_t<A> within(const A& a) { return within_t<A>{a}; }
// decided by the contract
bool selects(const double* ring, std::size_t corners, bool corrected, double x, double y, std::size_t k);
template <class V, class S> class rtree {
    std::vector<V> all;
public:
    typedef typename std::vector<V>::const_iterator const_iterator;
    void insert(const V& v) { all.push_back(v); }
    std::size_t size() const { return all.size(); }
    bool empty() const { return all.empty(); }
    const_iterator begin() const { return all.begin(); }
    const_iterator end() const { return all.end(); }
    template <class A, class O> std::size_t query(const within_t<A>& w, O out) const {
        std::size_t n = 0;
        const auto& r = w.area.outer();
        double ring[16];
        for (std::size_t i = 0; i < r.size() && i < 8; ++i) { ring[2 * i] = get<0>(r[i]); ring[2 * i + 1] = get<1>(r[i]); }
        for (std::size_t k = 0; k < all.size(); ++k) if (selects(ring, r.size(), w.area.corrected, get<0>(all[k].first), get<1>(all[k].first), k)) { *out++ = all[k]; ++n; }
        return n;
    }
};
}
} }
