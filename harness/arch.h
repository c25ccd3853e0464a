// C25: one generated program = a few element types (text produced by arch.py) x both containers x the operations the type's
// capabilities allow. Only the operations named in the table are instantiated. Everything is compared with a plain sequence.
#ifndef CBV_ARCH_H
#define CBV_ARCH_H
#include <boost/circular_buffer.hpp>
#include <boost/core/addressof.hpp>
#include <vector>
#include <algorithm>
#include <string>
#include <cstdio>
#include <cstdlib>
#if defined(BOOST_NO_EXCEPTIONS)
#include <boost/assert/source_location.hpp>
namespace boost {
void throw_exception(std::exception const&) { std::puts("FAIL an exception was raised"); std::exit(1); }
void throw_exception(std::exception const&, boost::source_location const&) { std::puts("FAIL an exception was raised"); std::exit(1); }
}
#endif
#if __cplusplus >= 201103L
#define MV(x) std::move(x)
#else
#define MV(x) (x)
#endif
template <class T> struct Ty; // mk(int), val(const T&), norm(int), defv()
static const char* g_what = "";
static std::string g_hist;
static void bad(const char* m) { std::printf("FAIL %s: %s; operations:%s\n", g_what, m, g_hist.c_str()); std::fflush(stdout); std::exit(1); }
typedef std::vector<int> V;
template <class A> struct AlF { static A get() { return A(); } };
template <class C, class T> struct InBuf { static bool ok(const T&) { return true; } };
#if __cplusplus >= 201703L && !defined(BOOST_NO_EXCEPTIONS)
#include <memory_resource>
struct Res : std::pmr::memory_resource { // everything in a buffer built with it comes from it
    long live = 0;
    void* do_allocate(std::size_t n, std::size_t a) override { live += n; return std::pmr::new_delete_resource()->allocate(n, a); }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override { live -= n; std::pmr::new_delete_resource()->deallocate(p, n, a); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
static Res g_res;
static long live() { return g_res.live; }
template <class T> struct AlF<std::pmr::polymorphic_allocator<T> > { static std::pmr::polymorphic_allocator<T> get() { return &g_res; } };
#define CBV_PMR 1
#else
static long live() { return 0; }
#endif
template <class T, class C> struct S {
    typedef typename C::iterator It; typedef typename C::capacity_type Cap;
    C c; V m; std::size_t cap; unsigned s; int k;
    explicit S(unsigned seed) : c(Cap(6), AlF<typename C::allocator_type>::get()), cap(6), s(seed), k(0) {}
    unsigned r(unsigned n) { s = s * 1664525u + 1013904223u; return (s >> 9) % n; }
    int v() { return Ty<T>::norm(1 + k++ % 100); }
    std::size_t n() const { return m.size(); }
    void fitf() { if (m.size() > cap) m.erase(m.begin(), m.begin() + (m.size() - cap)); }
    void fitb() { if (m.size() > cap) m.resize(cap); }
    void check() {
        const C& q = c;
        if (q.size() != m.size()) bad("size"); if (std::size_t(q.capacity()) != cap) bad("capacity"); if (q.empty() != m.empty() || q.full() != (m.size() == cap)) bad("empty/full");
        std::size_t i = 0; for (typename C::const_iterator x = q.begin(); x != q.end(); ++x, (void)++i) if (Ty<T>::val(*x) != m[i]) bad("content"); else if (!InBuf<C, T>::ok(*x)) bad("element built without the allocator");
        if (i != m.size()) bad("iteration");
        for (i = 0; i < m.size(); ++i) if (boost::addressof(c[i]) != boost::addressof(*(c.begin() + i))) bad("indexing");
        for (typename C::reverse_iterator x = c.rbegin(); x != c.rend(); ++x) if (Ty<T>::val(*x) != m[--i]) bad("reverse iteration");
        if (!m.empty() && (Ty<T>::val(q.front()) != m.front() || Ty<T>::val(q.back()) != m.back())) bad("front/back");
    }
};
#if __cplusplus >= 202002L
#include <iterator>
#include <ranges>
template <class C> struct Rules { // the language's own definition of a random access sequence
    typedef typename C::iterator I; typedef typename C::const_iterator K;
    static_assert(std::random_access_iterator<I> && std::random_access_iterator<K> && std::sized_sentinel_for<K, I> && std::sized_sentinel_for<I, K>);
    static_assert(std::ranges::random_access_range<C> && std::ranges::random_access_range<const C> && std::ranges::sized_range<C> && std::ranges::common_range<C>);
    static_assert(std::random_access_iterator<typename C::reverse_iterator> && std::indirectly_readable<I> && std::output_iterator<I, typename C::value_type>);
};
#else
template <class C> struct Rules {};
#endif
#define OP(name) template <class T, class C> void name(S<T, C>& s)
#define POS std::size_t p = s.r(s.n() + 1); typename C::iterator it = s.c.begin() + p
#define ELEM(v) const T e = Ty<T>::mk(v)
OP(pbc) { int v = s.v(); ELEM(v); s.c.push_back(e); s.m.push_back(v); s.fitf(); if (Ty<T>::val(e) != v) bad("argument changed"); }
OP(pfc) { int v = s.v(); ELEM(v); s.c.push_front(e); s.m.insert(s.m.begin(), v); s.fitb(); }
OP(pbm) { int v = s.v(); s.c.push_back(Ty<T>::mk(v)); s.m.push_back(v); s.fitf(); }
OP(pfm) { int v = s.v(); s.c.push_front(Ty<T>::mk(v)); s.m.insert(s.m.begin(), v); s.fitb(); }
OP(pbd) { s.c.push_back(); s.m.push_back(Ty<T>::defv()); s.fitf(); }
OP(pfd) { s.c.push_front(); s.m.insert(s.m.begin(), Ty<T>::defv()); s.fitb(); }
OP(popb) { if (s.n()) { s.c.pop_back(); s.m.pop_back(); } }
OP(popf) { if (s.n()) { s.c.pop_front(); s.m.erase(s.m.begin()); } }
OP(insc) { POS; int v = s.v(); ELEM(v); s.c.insert(it, e); s.m.insert(s.m.begin() + p, v); s.fitf(); }
OP(insm) { POS; int v = s.v(); s.c.insert(it, Ty<T>::mk(v)); s.m.insert(s.m.begin() + p, v); s.fitf(); }
OP(insd) { POS; s.c.insert(it); s.m.insert(s.m.begin() + p, Ty<T>::defv()); s.fitf(); }
OP(insn) { POS; int v = s.v(); ELEM(v); std::size_t k = s.r(4); s.c.insert(it, k, e); s.m.insert(s.m.begin() + p, k, v); s.fitf(); }
OP(rinsc) { POS; int v = s.v(); ELEM(v); s.c.rinsert(it, e); s.m.insert(s.m.begin() + p, v); s.fitb(); }
OP(rinsm) { POS; int v = s.v(); s.c.rinsert(it, Ty<T>::mk(v)); s.m.insert(s.m.begin() + p, v); s.fitb(); }
OP(rinsd) { POS; s.c.rinsert(it); s.m.insert(s.m.begin() + p, Ty<T>::defv()); s.fitb(); }
OP(rinsn) { POS; int v = s.v(); ELEM(v); std::size_t k = s.r(4); s.c.rinsert(it, k, e); s.m.insert(s.m.begin() + p, k, v); s.fitb(); }
// minimal iterators over generated values: an input iterator whose reference is a value, and a forward iterator
template <class T> struct In {
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
    const V* v; std::size_t i; In(const V& a, std::size_t b) : v(&a), i(b) {}
    T operator*() const { return Ty<T>::mk((*v)[i]); } In& operator++() { ++i; return *this; } In operator++(int) { In t = *this; ++i; return t; }
    bool operator==(const In& o) const { return i == o.i; } bool operator!=(const In& o) const { return i != o.i; }
};
template <class T, class C> V news(S<T, C>& s, unsigned n) { V a; for (unsigned i = 0, k = s.r(n); i < k; ++i) a.push_back(s.v()); return a; }
template <class T> void fill(std::vector<T>& x, const V& a) { for (std::size_t i = 0; i < a.size(); ++i) x.push_back(Ty<T>::mk(a[i])); }
#define RANGE(n) V a = news(s, n); std::vector<T> x; fill(x, a); const std::vector<T>& y = x; (void)y
OP(insr) { POS; RANGE(4); s.c.insert(it, y.begin(), y.end()); s.m.insert(s.m.begin() + p, a.begin(), a.end()); s.fitf(); }
OP(insi) { POS; V a = news(s, 4); s.c.insert(it, In<T>(a, 0), In<T>(a, a.size())); s.m.insert(s.m.begin() + p, a.begin(), a.end()); s.fitf(); }
OP(rinsr) { POS; RANGE(4); s.c.rinsert(it, y.begin(), y.end()); s.m.insert(s.m.begin() + p, a.begin(), a.end()); s.fitb(); }
OP(rinsi) { POS; V a = news(s, 4); s.c.rinsert(it, In<T>(a, 0), In<T>(a, a.size())); s.m.insert(s.m.begin() + p, a.begin(), a.end()); s.fitb(); }
OP(era) { if (s.n()) { std::size_t p = s.r(s.n()); s.c.erase(s.c.begin() + p); s.m.erase(s.m.begin() + p); } }
OP(rera) { if (s.n()) { std::size_t p = s.r(s.n()); s.c.rerase(s.c.begin() + p); s.m.erase(s.m.begin() + p); } }
OP(erar) { std::size_t p = s.r(s.n() + 1), q = p + s.r(s.n() - p + 1); s.c.erase(s.c.begin() + p, s.c.begin() + q); s.m.erase(s.m.begin() + p, s.m.begin() + q); }
OP(rerar) { std::size_t p = s.r(s.n() + 1), q = p + s.r(s.n() - p + 1); s.c.rerase(s.c.begin() + p, s.c.begin() + q); s.m.erase(s.m.begin() + p, s.m.begin() + q); }
OP(eb) { std::size_t k = s.r(s.n() + 1); s.c.erase_begin(k); s.m.erase(s.m.begin(), s.m.begin() + k); }
OP(ee) { std::size_t k = s.r(s.n() + 1); s.c.erase_end(k); s.m.resize(s.n() - k); }
OP(clr) { if (s.r(4) == 0) { s.c.clear(); s.m.clear(); } }
OP(setc) { s.cap = s.r(9); s.c.set_capacity(typename C::capacity_type(s.cap)); s.fitb(); }
OP(rsetc) { s.cap = s.r(9); s.c.rset_capacity(typename C::capacity_type(s.cap)); s.fitf(); }
OP(res) { std::size_t k = s.r(9); int v = s.v(); ELEM(v); s.c.resize(k, e); if (k > s.cap) s.cap = k; s.m.resize(k, v); }
OP(resd) { std::size_t k = s.r(9); s.c.resize(k); if (k > s.cap) s.cap = k; s.m.resize(k, Ty<T>::defv()); }
template <class M> void mrres(M& m, std::size_t k, int v) { if (k > m.size()) m.insert(m.begin(), k - m.size(), v); else m.erase(m.begin(), m.begin() + (m.size() - k)); }
OP(rres) { std::size_t k = s.r(9); int v = s.v(); ELEM(v); s.c.rresize(k, e); if (k > s.cap) s.cap = k; mrres(s.m, k, v); }
OP(rresd) { std::size_t k = s.r(9); s.c.rresize(k); if (k > s.cap) s.cap = k; mrres(s.m, k, Ty<T>::defv()); }
OP(asn) { std::size_t k = s.r(8); int v = s.v(); ELEM(v); s.c.assign(k, e); s.cap = k; s.m.assign(k, v); }
OP(ascn) { std::size_t k = s.r(8); int v = s.v(); ELEM(v); s.cap = k + s.r(3); s.c.assign(typename C::capacity_type(s.cap), k, e); s.m.assign(k, v); }
OP(asr) { RANGE(8); s.c.assign(y.begin(), y.end()); s.cap = a.size(); s.m = a; }
OP(asi) { V a = news(s, 8); s.c.assign(In<T>(a, 0), In<T>(a, a.size())); s.cap = a.size(); s.m = a; }
OP(ascr) { RANGE(8); s.cap = s.r(8); s.c.assign(typename C::capacity_type(s.cap), y.begin(), y.end()); s.m = a; s.fitf(); }
OP(asci) { V a = news(s, 8); s.cap = s.r(8); s.c.assign(typename C::capacity_type(s.cap), In<T>(a, 0), In<T>(a, a.size())); s.m = a; s.fitf(); }
OP(ctorn) { std::size_t k = s.r(8); int v = s.v(); ELEM(v); s.cap = k + s.r(3); C x(typename C::capacity_type(s.cap), k, e); s.c.swap(x); s.m.assign(k, v); }
OP(ctorr) { RANGE(8); C z(y.begin(), y.end()); s.c.swap(z); s.cap = a.size(); s.m = a; }
OP(ctori) { V a = news(s, 8); C z(In<T>(a, 0), In<T>(a, a.size())); s.c.swap(z); s.cap = a.size(); s.m = a; }
OP(ctorcr) { RANGE(8); s.cap = s.r(8); C z(typename C::capacity_type(s.cap), y.begin(), y.end()); s.c.swap(z); s.m = a; s.fitf(); }
OP(ctorci) { V a = news(s, 8); s.cap = s.r(8); C z(typename C::capacity_type(s.cap), In<T>(a, 0), In<T>(a, a.size())); s.c.swap(z); s.m = a; s.fitf(); }
OP(copy) { C x(s.c); if (x.size() != s.n()) bad("copy"); s.c.clear(); s.c = x; }
OP(move) {
#if __cplusplus >= 201103L
    C x(std::move(s.c)); if (!s.c.empty() || x.size() != s.n()) bad("move"); s.c = std::move(x); if (!x.empty()) bad("moved-from");
#else
    (void)s;
#endif
}
OP(swp) { C x(typename C::capacity_type(3)); using std::swap; swap(x, s.c); if (x.size() != s.n()) bad("swap"); s.c.swap(x); }
OP(lin) { s.c.linearize(); if (!s.c.is_linearized() || s.c.array_two().second) bad("linearize"); }
OP(rot) { if (s.n()) { std::size_t p = s.r(s.n()); s.c.rotate(s.c.begin() + p); std::rotate(s.m.begin(), s.m.begin() + p, s.m.end()); } }
OP(read) {
    const C& q = s.c; std::size_t i = 0;
    for (std::size_t j = 0; j < q.array_one().second; ++j) if (Ty<T>::val(q.array_one().first[j]) != s.m[i++]) bad("array_one");
    for (std::size_t j = 0; j < s.c.array_two().second; ++j) if (Ty<T>::val(s.c.array_two().first[j]) != s.m[i++]) bad("array_two");
    for (i = 0; i < s.n(); ++i) { typename C::const_iterator x = s.c.begin() + i; if (Ty<T>::val(q.at(i)) != s.m[i] || boost::addressof(q[i]) != boost::addressof(*x) || boost::addressof(q[i]) != x.operator->() || boost::addressof(s.c[i]) != (s.c.begin() + i).operator->() || x != s.c.begin() + i || q.end() - x != std::ptrdiff_t(s.n() - i) || (x < q.begin())) bad("reading"); }
    if (q.max_size() == 0 || q.reserve() != s.cap - s.n() || q.get_allocator() != s.c.get_allocator()) bad("observers");
}
template <class T> struct Is { int v; explicit Is(int x) : v(x) {} bool operator()(const T& x) const { return Ty<T>::val(x) == v; } };
template <class T> struct Lt { bool operator()(const T& a, const T& b) const { return Ty<T>::val(a) < Ty<T>::val(b); } };
OP(algo) {
    if (!s.n()) return;
    int v = s.m[s.r(s.n())];
    if (std::find_if(s.c.begin(), s.c.end(), Is<T>(v)) - s.c.begin() != std::find(s.m.begin(), s.m.end(), v) - s.m.begin()) bad("find_if");
    if (s.r(3) == 0) { std::reverse(s.c.begin(), s.c.end()); std::reverse(s.m.begin(), s.m.end()); }
    if (s.r(5) == 0) { std::sort(s.c.begin(), s.c.end(), Lt<T>()); std::sort(s.m.begin(), s.m.end()); }
}
OP(eq) { C x(s.c); if (!(x == s.c) || x != s.c) bad("=="); if (s.n()) { x.pop_back(); if (x == s.c || !(s.c != x)) bad("== of different sizes"); } }
OP(lt) { C x(s.c); if (x < s.c || x > s.c || !(x <= s.c) || !(x >= s.c)) bad("<"); if (s.n()) { x.pop_back(); if (!(x < s.c) || !(s.c > x) || s.c <= x || x >= s.c) bad("< of a prefix"); } }
template <class T, class C> struct Ent { const char* name; void (*f)(S<T, C>&); };
template <class T, class C> void run(const Ent<T, C>* ops, std::size_t n, unsigned seed, const char* what) {
    g_what = what; (void)sizeof(Rules<C>);
    for (unsigned round = 0; round < 40; ++round) {
        if (live()) bad("memory not returned to the resource");
        S<T, C> s(seed * 977 + round); g_hist.clear();
        for (int i = 0; i < 24; ++i) { const Ent<T, C>& o = ops[s.r(unsigned(n))]; g_hist += ' '; g_hist += o.name; o.f(s); s.check(); }
    }
}
#endif
