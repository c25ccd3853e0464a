// C22: the buffer object and its storage are made read-only (mprotect) while every const operation and reading iterator use runs.
#include <boost/circular_buffer.hpp>
#include <algorithm>
#include <deque>
#include <iterator>
#include <numeric>
#include <stdexcept>
#include "mini.h"
#define E_INT 1
#define E_STR 2
#if ELEMNAME == E_STR
typedef std::string T;
static T mk(int v) { char b[64]; snprintf(b, sizeof b, "value %06d%s", v % 1000000, v & 1 ? " kept on the heap, far too long for the small buffer" : ""); return b; }
#else
typedef int T;
static T mk(int v) { return v; }
#endif
static size_t pg() { static size_t p = (size_t)sysconf(_SC_PAGESIZE); return p; }
struct Region { char* p; size_t n; };
static std::vector<Region> regions; static bool frozen;
static void* rget(size_t bytes) {
    size_t n = (bytes + pg() - 1) / pg() * pg(); if (!n) n = pg();
    char* p = (char*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) abort();
    Region r = { p, n }; regions.push_back(r); return p;
}
static void rput(void* q) { for (size_t i = 0; i < regions.size(); ++i) if (regions[i].p == q) { munmap(q, regions[i].n); regions.erase(regions.begin() + (long)i); return; } bad("storage returned that was never handed out"); }
template <class U> struct PageAlloc {
    typedef U value_type;
    PageAlloc() {}
    template <class V> PageAlloc(const PageAlloc<V>&) {}
    template <class V> struct rebind { typedef PageAlloc<V> other; };
    U* allocate(size_t n) { return (U*)(frozen ? malloc(n * sizeof(U) + 16) : rget(n * sizeof(U))); }
    void deallocate(U* p, size_t) { for (size_t i = 0; i < regions.size(); ++i) if (regions[i].p == (char*)p) { rput(p); return; } free(p); }
    friend bool operator==(const PageAlloc&, const PageAlloc&) { return true; }
    friend bool operator!=(const PageAlloc&, const PageAlloc&) { return false; }
};
#if CONT
typedef boost::circular_buffer_space_optimized<T, PageAlloc<T> > C;
static C::capacity_type mkcap(unsigned c, unsigned m) { return C::capacity_type(c, m); }
#else
typedef boost::circular_buffer<T, PageAlloc<T> > C;
static size_t mkcap(unsigned c, unsigned) { return c; }
#endif
const int NP = 8;
const char* const pnames[] = { "cap", "mincap", "off", "size", "size2", "hist", "lo", "phase" };
std::string describe(const PCase&) { return "reading a buffer whose object and storage are write-protected"; }
const char* tag_of(const PCase&) { return "WRITE"; }
bool nontrivial(const PCase& c) { unsigned cap = c.p[0] % 60; return cap > 1 && c.p[3] % (cap + 1) > 0; }
void gen(Rng& r, PCase& c) { c.p[0] = r.below(4) ? r.below(9) : r.below(60); c.p[1] = r.below(c.p[0] + 1); c.p[2] = r.below(c.p[0] + 1); c.p[3] = r.below(3) ? r.below(c.p[0] + 1) : c.p[0]; c.p[4] = r.below(c.p[0] + 1); c.p[5] = r.below(2) ? 0 : (unsigned)r.next(); c.p[6] = (unsigned)r.next(); }
bool enum_next(PCase& c, bool first, unsigned maxcap) {
    if (first) return true;
    unsigned cap = c.p[0];
    if (++c.p[4] <= cap) return true; c.p[4] = 0;
    if (++c.p[3] <= cap) return true; c.p[3] = 0;
    if (++c.p[2] <= cap) return true; c.p[2] = 0;
    if (++c.p[1] <= (CONT ? cap : 0)) return true; c.p[1] = 0;
    return ++c.p[0] <= maxcap * 2;
}
static const char* volatile doing = "setup";
#define DO(what) doing = what
static void onsegv(int, siginfo_t* si, void*) {
    bool in = false; for (size_t i = 0; i < regions.size(); ++i) if ((char*)si->si_addr >= regions[i].p && (char*)si->si_addr < regions[i].p + regions[i].n) in = true;
    bad(in && frozen ? "%s wrote to the buffer or its storage" : "%s: invalid memory access", doing);
}
#define EQ(x, y) do { if (!((x) == (y))) bad("%s: wrong result (%s)", doing, #x); } while (0)
static volatile size_t sink;
template <class It> static void iter_suite(It b, It e, const std::vector<T>& m, const char* what) {
    DO(what);
    size_t n = m.size();
    EQ((size_t)(e - b), n); EQ(b == e, n == 0); EQ(b != e, n != 0); EQ(b < e, n != 0); EQ(e > b, n != 0); EQ(b <= e, true); EQ(b >= e, n == 0);
    size_t i = 0; for (It it = b; it != e; ++it, ++i) { EQ(*it, m[i]); EQ((size_t)(it - b), i); EQ(b[(ptrdiff_t)i], m[i]); EQ(*(b + (ptrdiff_t)i), m[i]); }
    EQ(i, n);
    for (It it = e; it != b; ) { --it; --i; EQ(*it, m[i]); }
    for (It it = e; it != b; ) { it--; It c2(it); c2 = it; EQ(c2 == it, true); it = c2; }
    for (size_t k = 0; k <= n; ++k) { It it = b; it += (ptrdiff_t)k; EQ((size_t)(e - it), n - k); it -= (ptrdiff_t)k; EQ(it == b, true); It f = e - (ptrdiff_t)k; EQ((size_t)(f - b), n - k); }
    if (n) { EQ(std::find(b, e, m[n / 2]) != e, true); EQ((size_t)std::count(b, e, m[0]) > 0, true); EQ(std::lower_bound(b, b + 1, m[0]) - b, 0); EQ(*std::max_element(b, e) == *std::max_element(m.begin(), m.end()), true); }
    std::vector<T> copy(b, e); EQ(copy == m, true);
}
template <class CC> static void view_suite(CC& c, const std::vector<T>& m, bool cst) {
    const size_t n = m.size();
    DO(cst ? "const indexing" : "indexing"); for (size_t i = 0; i < n; ++i) { EQ(c[i], m[i]); EQ(c.at(i), m[i]); }
    DO(cst ? "const at() past the end" : "at() past the end"); bool t = false; try { sink = c.at(n) == mk(1); } catch (const std::out_of_range&) { t = true; } EQ(t, true);
    DO(cst ? "const front/back" : "front/back"); if (n) { EQ(c.front(), m[0]); EQ(c.back(), m[n - 1]); }
    DO(cst ? "const array_one/array_two" : "array_one/array_two");
    { size_t k = 0; for (size_t i = 0; i < c.array_one().second; ++i) EQ(c.array_one().first[i], m[k++]); for (size_t i = 0; i < c.array_two().second; ++i) EQ(c.array_two().first[i], m[k++]); EQ(k, n); }
    iter_suite(c.begin(), c.end(), m, cst ? "const iterators" : "iterators");
    std::vector<T> rm(m.rbegin(), m.rend());
    iter_suite(c.rbegin(), c.rend(), rm, cst ? "const reverse iterators" : "reverse iterators");
}
void run(const PCase& p) {
    const unsigned cap = p.p[0] % 60, mn = cap ? p.p[1] % (cap + 1) : 0, off = cap ? p.p[2] % (cap + 1) : 0, size = p.p[3] % (cap + 1), size2 = p.p[4] % (cap + 1);
    regions.clear(); frozen = false; doing = "setup";
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
    void* m1 = rget(sizeof(C)); void* m2 = rget(sizeof(C));
    C* a = new (m1) C(mkcap(cap, mn)); C* b = new (m2) C(mkcap(cap + 1, 0));
    std::deque<T> mod;
    for (unsigned i = 0; i < off && cap; ++i) { a->push_back(mk(0)); a->pop_front(); }
    for (unsigned i = 0; i < size; ++i) { a->push_back(mk(10 + (int)i)); mod.push_back(mk(10 + (int)i)); }
    for (unsigned i = 0; i < size2; ++i) b->push_front(mk(10 + (int)(size2 - 1 - i)));
    if (p.p[5]) { // some more history
        Rng r(p.p[5]);
        for (int k = 0; k < 12; ++k) switch (r.below(6)) {
            case 0: if (cap) { int v = (int)r.below(30); a->push_back(mk(v)); mod.push_back(mk(v)); if (mod.size() > cap) mod.pop_front(); } break;
            case 1: if (cap) { int v = (int)r.below(30); a->push_front(mk(v)); mod.push_front(mk(v)); if (mod.size() > cap) mod.pop_back(); } break;
            case 2: if (!mod.empty()) { a->pop_back(); mod.pop_back(); } break;
            case 3: if (!mod.empty()) { a->pop_front(); mod.pop_front(); } break;
            case 4: if (!mod.empty()) { size_t i = r.below((unsigned)mod.size()); a->erase(a->begin() + (long)i); mod.erase(mod.begin() + (long)i); } break;
            default: if (r.below(3) == 0) { a->linearize(); } else if (!mod.empty()) { size_t i = r.below((unsigned)mod.size()); a->rotate(a->begin() + (long)i); std::rotate(mod.begin(), mod.begin() + (long)i, mod.end()); } break;
        }
    }
    std::vector<T> m(mod.begin(), mod.end()), mb; for (unsigned i = 0; i < size2; ++i) mb.push_back(mk(10 + (int)i));
    for (size_t i = 0; i < regions.size(); ++i) mprotect(regions[i].p, regions[i].n, PROT_READ);
    frozen = true;
    const C& c = *a; const C& d = *b;
    DO("size and capacity observers");
    EQ(c.size(), m.size()); EQ((size_t)c.capacity(), (size_t)cap); EQ(c.empty(), m.empty()); EQ(c.full(), m.size() == cap); EQ(c.reserve(), cap - m.size()); sink = c.max_size();
    DO("is_linearized"); sink = c.is_linearized();
    DO("get_allocator"); { PageAlloc<T> al = c.get_allocator(); (void)al; }
    view_suite(c, m, true); view_suite(*a, m, false); view_suite(d, mb, true);
    DO("comparison");
    EQ(c == c, true); EQ(c != c, false); EQ(c < c, false); EQ(c <= c, true);
    EQ(c == d, m == mb); EQ(c != d, m != mb); EQ(c < d, m < mb); EQ(c > d, m > mb); EQ(c <= d, m <= mb); EQ(c >= d, m >= mb); EQ(d < c, mb < m);
    DO("mixed iterator comparison"); { C::const_iterator ci = a->begin(); C::iterator it = a->begin(); EQ(ci == it, true); EQ(it == ci, true); EQ(ci - it, 0); EQ(ci < it, false); }
    DO("copy construction from it"); { C* q = new C(c); EQ(*q == c, true); delete q; }
    DO("copy assignment from it"); { C* q = new C(mkcap(3, 0)); *q = c; EQ(std::equal(m.begin(), m.end(), q->begin()) && q->size() == m.size(), true); delete q; }
    DO("range construction from it"); { C* q = new C(c.begin(), c.end()); EQ(q->size(), m.size()); C* q2 = new C(mkcap(2, 0), c.begin(), c.end()); EQ(q2->size(), std::min((size_t)2, m.size())); q->assign(c.rbegin(), c.rend()); q->insert(q->begin(), c.begin(), c.end()); delete q; delete q2; }
    for (size_t i = 0; i < regions.size(); ++i) mprotect(regions[i].p, regions[i].n, PROT_READ | PROT_WRITE);
    frozen = false; DO("teardown");
    a->~C(); b->~C(); rput(m1); rput(m2);
    if (!regions.empty()) bad("storage was not returned");
}
