// Executes one generated case against the library and an explicit model (C++98..C++20).
#define BOOST_CB_TEST
#ifdef CBV_DEBUG
#define BOOST_CB_ENABLE_DEBUG 1
#define BOOST_ENABLE_ASSERT_HANDLER
#endif
#include <boost/circular_buffer.hpp>
#include "elem.h"
#include <algorithm>
#include <numeric>
#include <stdexcept>
#include <limits>
#if __cplusplus >= 201103L
#include <type_traits>
#endif
#include <typeinfo>

#ifndef CONT
#define CONT 0
#endif
#ifdef CBV_DEBUG
#define DEBUGMODE 1
namespace boost {
void assertion_failed(char const* expr, char const* function, char const* file, long line) {
    (void)function; const char* s = strrchr(file, '/'); fail(T_ASSERT, "assertion failed in a correct program: %s (%s:%ld)", expr, s ? s + 1 : file, line);
}
void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line) {
    (void)function; (void)msg; const char* s = strrchr(file, '/'); fail(T_ASSERT, "assertion failed in a correct program: %s (%s:%ld)", expr, s ? s + 1 : file, line);
}
}
#else
#define DEBUGMODE 0
#endif

#if CONT == 0
typedef boost::circular_buffer<Elem, Al> C;
typedef size_t CapT;
static inline CapT mkcap(size_t cap, size_t) { return cap; }
static inline size_t cap_of(const C& c) { return c.capacity(); }
static inline size_t mincap_of(const C&) { return 0; }
#else
typedef boost::circular_buffer_space_optimized<Elem, Al> C;
typedef C::capacity_type CapT;
static inline CapT mkcap(size_t cap, size_t mn) { return CapT(cap, mn); }
static inline size_t cap_of(const C& c) { return c.capacity().capacity(); }
static inline size_t mincap_of(const C& c) { return c.capacity().min_capacity(); }
#endif
typedef C::iterator It;
typedef C::const_iterator CIt;

static const char* config_str =
    "cont=" 
#if CONT == 0
    "base"
#else
    "so"
#endif
    ",elem=" CBV_ELEMNAME ",alloc=" CBV_ALLOCNAME ",std=" CBV_STDNAME
#if DEBUGMODE
    ",debug=1"
#else
    ",debug=0"
#endif
    ",cc=" CBV_CCNAME;
const char* exec_config() { return config_str; }

struct Cont { C* c; std::vector<int> m; size_t cap, mincap; int id; };
static Cont A, B;

// result of the last call
static int threw;            // 0 no, 1 injected, 2 length_error, 3 out_of_range
static Counters D;           // operation counts of the last call
static int hits;             // throw points met in the last call
static int counter_v;
static bool fill_ok;         // no exception has happened yet (debug fill is exact)

static int nv() {
    ++counter_v; if (counter_v > 100000) counter_v = 1;
    unsigned h = (unsigned)counter_v * 2654435761u >> 27; // now and then a value that is in the buffer already, or the default one
    return h == 7 ? (ELEM == E_STR ? 1 : DEFAULT_V) : h == 11 ? norm(std::max(1, counter_v - 2)) : norm(counter_v);
}
#define MK(name, v) Elem name(mkarg(v))

static int want_id = -1; // see Glob
static void begin_call(int f) { G.want_id = want_id; G.hits = 0; G.fired = 0; G.armed = f; G.active = 1; memset(&G.n, 0, sizeof G.n); }
static void end_call() { G.want_id = -1; G.active = 0; G.armed = 0; hits = G.hits; D = G.n; if (G.fired) { g_res->fired = 1; } }
#define CALL(stmt) do { threw = 0; begin_call(op.f); \
    try { stmt; } catch (const Injected& e_) { threw = 1; if (e_.at != G.fired) fail(T_EXC, "another exception object than the one thrown"); } catch (const std::length_error&) { threw = 2; } \
    catch (const std::out_of_range&) { threw = 3; } catch (...) { end_call(); fail(T_EXC, "the exception was replaced by another one"); } \
    end_call(); \
    if (G.fired && threw != 1) fail(T_EXC, "an exception thrown at point %d was swallowed or replaced", hits); } while (0)

// ------------------------------------------------------------------ pool of long-lived iterators
enum { PK_NONE = 0, PK_SINGULAR, PK_ELEM, PK_END, PK_INVALID, PK_UNKNOWN };
enum { POOL = 8 };
struct Slot { It* it; CIt* cit; int kind; int which; long idx; };
static Slot pool[POOL];
static void slot_drop(Slot& s) { delete s.it; delete s.cit; s.it = 0; s.cit = 0; s.kind = PK_NONE; }

// what happened to the elements that were in X before the operation: new index, or -1 (invalidated)
static std::vector<long> keep;
static bool keep_end;        // iterators equal to end() stay valid
static int keep_mode;        // 0: apply to X; 1: swapped (to Y, keep ids); 2: both containers unknown/invalidated; 3: X unknown
static bool other_invalid;   // Y's iterators (including end) are invalidated / unspecified
static void keep_none(size_t n) { keep.assign(n, -1); }
static void keep_shift(size_t lo, size_t hi, long sh) { for (size_t i = lo; i < hi && i < keep.size(); ++i) keep[i] = (long)i + sh; }

// ------------------------------------------------------------------ checks
static void check_view(const char* what, int got, int want, size_t i) {
    if (got != want) fail(T_VIEW, "%s gives %d at index %zu, the model has %d", what, got, i, want);
}
static std::string show(const std::vector<int>& v) {
    std::string s = "["; char b[32];
    for (size_t i = 0; i < v.size() && i < 40; ++i) { snprintf(b, sizeof b, i ? " %d" : "%d", v[i]); s += b; }
    return s + "]";
}
static const Elem* first_ptr(C& c) {
#if ALLOC == A_FANCY
    return c.array_one().first.raw();
#else
    return c.array_one().first;
#endif
}
template <class P> static const Elem* raw_ptr(const P& p) {
#if ALLOC == A_FANCY
    return p.raw();
#else
    return p;
#endif
}

static void read_content(Cont& X, std::vector<int>& out) {
    const C& c = *X.c; out.clear();
    size_t n = c.size();
    for (size_t i = 0; i < n; ++i) out.push_back(val(c[i]));
}

// a content mismatch seen through operator[]: is it the content that is wrong, or does this view disagree with the others?
static void content_mismatch(Cont& X, const char* name) {
    C& c = *X.c; const C& k = c;
    std::vector<int> byidx, byit, byseg;
    read_content(X, byidx);
    size_t lim = X.m.size() + 64;
    for (CIt it = k.begin(); it != k.end() && byit.size() < lim; ++it) byit.push_back(val(*it));
    for (size_t i = 0; i < k.array_one().second && byseg.size() < lim; ++i) byseg.push_back(val(raw_ptr(k.array_one().first)[i]));
    for (size_t i = 0; i < k.array_two().second && byseg.size() < lim; ++i) byseg.push_back(val(raw_ptr(k.array_two().first)[i]));
    if (byidx != byit) fail(T_VIEW, "%s: indexing gives %s, iteration gives %s", name, show(byidx).c_str(), show(byit).c_str());
    if (byidx != byseg) fail(T_VIEW, "%s: indexing gives %s, the segments give %s", name, show(byidx).c_str(), show(byseg).c_str());
    fail(T_CONTENT, "%s: content is %s, the model has %s", name, show(byidx).c_str(), show(X.m).c_str());
}
static void verify_one(Cont& X, const char* name, bool deep) {
    C& c = *X.c; const C& k = c;
    if (!(g_want >> T_CONTENT & 1)) { // what the buffer holds is not judged: go on with what it does hold
        X.m.resize(k.size()); for (size_t i = 0; i < X.m.size(); ++i) X.m[i] = val(k[i]);
    }
    if (!(g_want >> T_CAP & 1)) { X.cap = cap_of(k); if (CONT == 0 || !(g_want >> T_MEM & 1) || X.mincap > X.cap) X.mincap = mincap_of(k); }
    const size_t n = X.m.size();
    if (k.size() != n) {
        size_t a = k.array_one().second + k.array_two().second;
        if (a != k.size()) fail(T_VIEW, "%s: size() is %zu, the segments hold %zu elements", name, (size_t)k.size(), a);
        fail(T_CONTENT, "%s: size is %zu, the model has %zu %s", name, (size_t)k.size(), n, show(X.m).c_str());
    }
    if (cap_of(k) != X.cap) fail(T_CAP, "%s: capacity is %zu, expected %zu", name, (size_t)cap_of(k), X.cap);
    if (mincap_of(k) != X.mincap) fail(g_want >> T_CAP & 1 ? T_CAP : T_MEM, "%s: minimum capacity is %zu, expected %zu", name, (size_t)mincap_of(k), X.mincap);
    for (size_t i = 0; i < n; ++i) {
        int g = val(k[i]);
#if ELEM == E_TMOVE || ELEM == E_TMNA
        if (g == MOVEDV) fail(T_MOVE, "%s: element %zu is left in a moved-from state", name, i);
#endif
        if (g != X.m[i]) content_mismatch(X, name);
    }
    if (k.empty() != (n == 0)) fail(T_VIEW, "%s: empty() is %d with size %zu", name, (int)k.empty(), n);
    if (k.full() != (n == X.cap)) fail(T_VIEW, "%s: full() is %d with size %zu of %zu", name, (int)k.full(), n, X.cap);
    if (k.reserve() != X.cap - n) fail(T_VIEW, "%s: reserve() is %zu with size %zu of %zu", name, (size_t)k.reserve(), n, X.cap);
#if ALLOC == A_STATEFUL
    if (k.max_size() != (size_t)ALLOC_MAX) fail(T_VIEW, "max_size() is %zu, the allocator allows %d", (size_t)k.max_size(), (int)ALLOC_MAX);
#endif
    if (n == 0) {
        if (!(k.begin() == k.end()) || !(c.begin() == c.end()) || c.rbegin() != c.rend() || k.rbegin() != k.rend()) fail(T_VIEW, "%s: iterators of an empty buffer differ", name);
        if (c.array_one().second != 0 || c.array_two().second != 0 || k.array_one().second != 0 || k.array_two().second != 0) fail(T_VIEW, "%s: segments of an empty buffer are not empty", name);
        return;
    }
    if (k.begin() == k.end() || c.begin() == c.end()) fail(T_VIEW, "%s: begin equals end in a non-empty buffer", name);
    // segments
    size_t n1 = c.array_one().second, n2 = c.array_two().second;
    const Elem* p1 = raw_ptr(c.array_one().first); const Elem* p2 = raw_ptr(c.array_two().first);
    if (n1 + n2 != n || n1 == 0) fail(T_VIEW, "%s: segments have %zu and %zu elements, size is %zu", name, n1, n2, n);
    if (k.array_one().second != n1 || k.array_two().second != n2 || raw_ptr(k.array_one().first) != p1 || (n2 && raw_ptr(k.array_two().first) != p2))
        fail(T_VIEW, "%s: const and non-const segments differ", name);
    if (n2 && p2 < p1 + n1 && p1 < p2 + n2) fail(T_VIEW, "%s: segments overlap", name);
    bool lin = true;
    for (size_t i = 0; i < n; ++i) {
        const Elem* e = &k[i];
        const Elem* s = i < n1 ? p1 + i : p2 + (i - n1);
        if (s != e) { check_view("contiguous segment", val(*s), X.m[i], i); fail(T_VIEW, "%s: segment and index %zu designate different objects", name, i); }
        if (&c[i] != e || &k.at(i) != e || &c.at(i) != e) fail(T_VIEW, "%s: [] and at() designate different objects at %zu", name, i);
        if (e != &k[0] + i) lin = false;
    }
    if (k.is_linearized() != lin) fail(T_VIEW, "%s: is_linearized() is %d, elements are%s contiguous", name, (int)k.is_linearized(), lin ? "" : " not");
    if (&k.front() != &k[0] || &c.front() != &k[0]) fail(T_VIEW, "%s: front() is not element 0", name);
    if (&k.back() != &k[n - 1] || &c.back() != &k[n - 1]) fail(T_VIEW, "%s: back() is not the last element", name);
    { size_t i = 0; It it = c.begin(); for (; it != c.end() && i < n; ++it, ++i) if (&*it != &k[i]) { check_view("iterator", val(*it), X.m[i], i); fail(T_VIEW, "%s: iterator at %zu designates another object", name, i); }
      if (i != n || it != c.end()) fail(T_VIEW, "%s: iteration ends after %zu of %zu elements", name, i, n); }
    { size_t i = 0; CIt it = k.begin(); for (; it != k.end() && i < n; it++, ++i) if (&*it != &k[i]) fail(T_VIEW, "%s: const iterator at %zu designates another object", name, i);
      if (i != n || it != k.end()) fail(T_VIEW, "%s: const iteration ends after %zu of %zu elements", name, i, n); }
    if (deep || n <= 6) {
    { size_t i = n; C::reverse_iterator it = c.rbegin(); for (; it != c.rend() && i > 0; ++it) { --i; if (&*it != &k[i]) fail(T_VIEW, "%s: reverse iterator at %zu designates another object", name, i); }
      if (i != 0 || it != c.rend()) fail(T_VIEW, "%s: reverse iteration ends early", name); }
    { size_t i = n; C::const_reverse_iterator it = k.rbegin(); for (; it != k.rend() && i > 0; it++) { --i; if (&*it != &k[i]) fail(T_VIEW, "%s: const reverse iterator at %zu designates another object", name, i); }
      if (i != 0 || it != k.rend()) fail(T_VIEW, "%s: const reverse iteration ends early", name); }
#if CONT == 0
    if (k.cbegin() != k.begin() || k.cend() != k.end()) fail(T_VIEW, "%s: cbegin/cend differ from begin/end", name);
#endif
    }
}

static size_t block_n(Cont& X) {
#if ATRACK
    const Elem* p = first_ptr(*X.c);
    if (!p) return 0;
    const Block* b = block_of(p);
    if (!b) fail(T_ALLOC, "the buffer's storage is not a live block of its allocator");
    return b->n;
#else
    return X.c->size();
#endif
}

static void verify_storage(Cont& X, const char* name) {
    const size_t n = X.m.size();
    (void)name; (void)n;
#if ATRACK
    const Elem* p = first_ptr(*X.c);
    const Block* b = p ? block_of(p) : 0;
    if (p && !b) fail(T_ALLOC, "%s: storage is not a live block", name);
    if (b) {
        check_redzone(*b);
        if (b->sz != sizeof(Elem)) fail(T_ALLOC, "%s: storage block has the wrong element size", name);
        for (size_t i = 0; i < n; ++i) { const char* e = (const char*)&(*X.c)[i]; if (e < b->p || e + sizeof(Elem) > b->p + b->n * b->sz) fail(T_VIEW, "%s: element %zu lies outside the storage", name, i); }
    }
    size_t bn = b ? b->n : 0;
#if CONT == 0
    if (bn != X.cap) fail(T_ALLOC, "%s: storage has room for %zu elements, capacity is %zu", name, bn, X.cap);
#else
    if (bn < n) fail(T_MEM, "%s: storage has room for %zu elements, size is %zu", name, bn, n);
    if (bn > X.cap) fail(T_MEM, "%s: storage for %zu elements exceeds the capacity limit %zu", name, bn, X.cap);
#endif
#if ALLOC == A_STATEFUL || ALLOC == A_FANCY
    if (b && b->id != X.id) fail(T_ALLOC, "%s: storage belongs to allocator #%d, the buffer should hold allocator #%d", name, b->id, X.id);
    { const C& k = *X.c; if (alid(k.get_allocator()) != X.id) fail(T_ALLOC, "%s: get_allocator() is #%d, expected #%d", name, alid(k.get_allocator()), X.id); }
#endif
#if DEBUGMODE && ALLOC != A_FANCY
    if (b && fill_ok) {
        size_t n1 = X.c->array_one().second, n2 = X.c->array_two().second;
        const Elem* p1 = X.c->array_one().first; const Elem* p2 = X.c->array_two().first;
        const Elem* base = (const Elem*)b->p;
        for (size_t s = 0; s < b->n; ++s) {
            const Elem* q = base + s;
            if ((n1 && q >= p1 && q < p1 + n1) || (n2 && q >= p2 && q < p2 + n2)) continue;
            const unsigned char* u = (const unsigned char*)q;
            for (size_t z = 0; z < sizeof(Elem); ++z) if (u[z] != 0xCC) fail(T_DBGFILL, "%s: unoccupied slot %zu holds byte 0x%02x instead of 0xCC", name, s, u[z]);
        }
    }
#endif
#endif
}

static void verify_all(bool deep) {
    const Counters keptD = D; const int kepthits = hits;
    begin_call(0);
    G.active = 1; // observers must not run any element operation
    verify_one(A, "A", deep);
    verify_one(B, "B", deep);
    end_call();
    if (D.cc + D.mc + D.ca + D.ma + D.d + D.def + D.allocs || hits) fail(T_NOTHROW, "observers performed element operations or allocations");
    D = keptD; hits = kepthits;
    verify_storage(A, "A"); verify_storage(B, "B");
#if ATRACK
    size_t want = (first_ptr(*A.c) ? 1 : 0) + (first_ptr(*B.c) ? 1 : 0);
    if (g_blocks.size() != want) fail(T_ALLOC, "%zu blocks are allocated, the buffers own %zu", g_blocks.size(), want);
#endif
#if TRACKED
    size_t live = A.m.size() + B.m.size();
    if (g_live.cnt != live) fail(T_LIFE, "%zu element objects are alive, the buffers hold %zu", g_live.cnt, live);
#endif
#if HOOKED && ALLOC == A_STATEFUL && CXX11
    if (g_hooked.cnt != A.m.size() + B.m.size()) fail(T_ALLOC, "%zu elements were created through the allocator and not destroyed, the buffers hold %zu", g_hooked.cnt, A.m.size() + B.m.size());
#endif
}

// ------------------------------------------------------------------ model
static std::vector<int> model_insert(const std::vector<int>& m, size_t cap, size_t pos, const std::vector<int>& v) {
    std::vector<int> r(m); r.insert(r.begin() + pos, v.begin(), v.end());
    if (r.size() > cap) r.erase(r.begin(), r.begin() + (r.size() - cap));
    return r;
}
static std::vector<int> model_rinsert(const std::vector<int>& m, size_t cap, size_t pos, const std::vector<int>& v) {
    std::vector<int> r(m); r.insert(r.begin() + pos, v.begin(), v.end());
    if (r.size() > cap) r.erase(r.begin() + cap, r.end());
    return r;
}

static It mkpos(C& c, size_t idx, unsigned how) {
    switch (how % 3) {
    case 0: return c.begin() + idx;
    case 1: return c.end() - (c.size() - idx);
    default: { It i = c.begin(); for (size_t k = 0; k < idx; ++k) ++i; return i; }
    }
}

static Cont* X; static Cont* Y;
static std::vector<int> oldm; static size_t oldcap, oldmin, oldblk;
static std::vector<const Elem*> oldaddr;
static std::vector<int> newvals;    // values being introduced by the operation
static std::vector<int> exp_;       // expected content
static size_t expcap, expmin;
static long exact_blk;              // documented allocation of the space-optimized buffer, or -1
static bool shrink_op, grow_op, copy_like; static size_t grow_need;
static size_t costlimit; static bool has_cost, noalloc, strong, nothrow_op;
static long copies_max;             // copies of nothrow-movable elements allowed, or -1
static bool had_throw;

static void accept_actual(Cont& Z, const std::vector<int>& pre, const std::vector<int>& intro, size_t cap1, size_t cap2, size_t min1, size_t min2, const char* name) {
    C& c = *Z.c;
    size_t cp = cap_of(c), mn = mincap_of(c);
    if (!((cp == cap1 && mn == min1) || (cp == cap2 && mn == min2))) fail(T_EXC, "%s: capacity is %zu after a failed operation (was %zu, requested %zu)", name, cp, cap1, cap2);
    if (c.size() > cp) fail(T_EXC, "%s: size %zu exceeds capacity %zu after a failed operation", name, (size_t)c.size(), cp);
    Z.cap = cp; Z.mincap = mn;
#if ATRACK
    { const Elem* p = first_ptr(c); const Block* b = p ? block_of(p) : 0; if (p && !b) fail(T_EXC, "%s: storage is not a live block after a failed operation", name);
      if ((b ? b->n : 0) < c.size()) fail(T_EXC, "%s: size %zu exceeds the allocated storage %zu after a failed operation", name, (size_t)c.size(), b ? b->n : (size_t)0); }
#endif
    std::vector<int> now;
    size_t n = c.size();
    for (size_t i = 0; i < n; ++i) {
        int g = val(c[i]);
#if TRACKED
        if (g == MOVEDV) {
#if ELEM == E_TMOVE || ELEM == E_TMNA
            fail(T_MOVE, "%s: element %zu is moved-from after a failed operation", name, i);
#endif
#if ELEM == E_COPY || ELEM == E_TASG
            fail(T_EXC, "moved-from copy-only element");
#endif
        } else
#endif
        if (std::find(pre.begin(), pre.end(), g) == pre.end() && std::find(intro.begin(), intro.end(), g) == intro.end())
            fail(T_EXC, "%s: value %d appears after a failed operation; it was neither present nor being inserted", name, g);
        now.push_back(g);
    }
    Z.m = now;
}

static void pool_unknown(int which) { for (int i = 0; i < POOL; ++i) if (pool[i].which == which && (pool[i].kind == PK_ELEM || pool[i].kind == PK_END || pool[i].kind == PK_INVALID)) pool[i].kind = PK_UNKNOWN; }
static void pool_invalid(int which) { for (int i = 0; i < POOL; ++i) if (pool[i].which == which && (pool[i].kind == PK_ELEM || pool[i].kind == PK_END)) pool[i].kind = PK_INVALID; }

static bool maybe_kept; // the space optimized operation changed nothing at all: its iterators may or may not be kept
static void pool_update() {
    int xw = X == &A ? 0 : 1;
    for (int i = 0; i < POOL; ++i) {
        Slot& s = pool[i];
        if (s.kind != PK_ELEM && s.kind != PK_END) continue;
        if (keep_mode == 1) { // swap
#if DEBUGMODE
            s.kind = PK_INVALID;
#else
            s.kind = s.kind == PK_END ? PK_INVALID : PK_ELEM; s.which ^= 1;
#endif
            continue;
        }
        if (keep_mode == 2) { s.kind = PK_INVALID; continue; }
        if (s.which != xw) { if (other_invalid) s.kind = PK_INVALID; continue; }
        if (s.kind == PK_END) { if (!keep_end) s.kind = PK_INVALID; continue; }
        long k = s.idx < (long)keep.size() ? keep[s.idx] : -1;
        if (k < 0) s.kind = maybe_kept ? PK_UNKNOWN : PK_INVALID; else s.idx = k;
    }
}
static void pool_verify() {
    for (int i = 0; i < POOL; ++i) {
        Slot& s = pool[i];
        if (s.kind == PK_NONE || s.kind == PK_UNKNOWN || s.kind == PK_SINGULAR) continue;
        Cont& Z = s.which ? B : A;
#if DEBUGMODE
        bool v = s.it ? s.it->is_valid(Z.c) : s.cit->is_valid(Z.c);
        bool want = s.kind != PK_INVALID;
        if (v != want) fail(T_DBGVALID, "a held %siterator to %s is reported %s but should be %s (%s)", s.it ? "" : "const ", s.kind == PK_END ? "end" : "an element",
            v ? "valid" : "invalid", want ? "valid" : "invalid", s.kind == PK_INVALID ? "invalidated by an operation since" : "never invalidated");
        if (v != want) { s.kind = PK_UNKNOWN; continue; }
#endif
        if (s.kind == PK_INVALID) continue;
        if (s.kind == PK_END) {
            bool eq = s.it ? *s.it == Z.c->end() : *s.cit == Z.c->end();
            if (!eq) fail(T_STAB, "an end iterator obtained earlier is no longer equal to end()");
        } else {
            if (s.idx >= (long)Z.m.size()) { fail(T_STAB, "an iterator kept across operations designates no element any more"); s.kind = PK_UNKNOWN; continue; }
#if !DEBUGMODE
            // after a swap the iterator still names the other container; only the element is promised
            const Elem* e = s.it ? &**s.it : &**s.cit;
            if (e != &(*Z.c)[s.idx]) fail(T_STAB, "an iterator kept across operations no longer designates its element (now index %ld)", s.idx);
#else
            const Elem* e = s.it ? &**s.it : &**s.cit;
            if (e != &(*Z.c)[s.idx]) fail(T_STAB, "an iterator kept across operations no longer designates its element (now index %ld)", s.idx);
            ptrdiff_t d = s.it ? *s.it - Z.c->begin() : *s.cit - Z.c->begin();
            if (d != s.idx) fail(T_STAB, "a kept iterator is at distance %ld from begin, expected %ld", (long)d, s.idx);
#endif
        }
    }
}

static void classify(const Op& op) {
    g_res->opcount[op.code] = g_res->opcount[op.code] + 1;
    if (!g_family[op.code]) return;
    unsigned f = FE_FAM;
    size_t n = X->m.size();
    if (n == 0) f |= FE_EMPTY;
    if (n == X->cap && n) f |= FE_FULL;
    if (n && X->c->array_two().second) f |= FE_WRAP;
    if (n > 1) f |= FE_MID;
    for (int i = 0; i < POOL; ++i) if (pool[i].kind == PK_ELEM) f |= FE_POOL;
    g_res->feats = g_res->feats | f;
}

#define STEP_DECL const size_t n = X->m.size(); C& c = *X->c; const size_t cap = X->cap; (void)n; (void)c; (void)cap;

static size_t ncount(const Op& op, size_t cap) { // count argument of insert(pos, n, item)
    if (op.b >= 0xFFFFFFF0u) { size_t k = 0xFFFFFFFFu - op.b; return (op.c & 1) ? ((size_t)-1 / 2) + k : (size_t)-1 - k; }
    return op.b % (cap + 4);
}

// the i-th range category available for this element type
enum { R_PTR = 0, R_IN, R_FWD, R_BIDI, R_RAND, R_MOVE, R_INMOVE, R_OTHER, R_NCAT };
#if COPYABLE && CXX11
static const int cats_assign[] = { R_PTR, R_IN, R_FWD, R_BIDI, R_RAND, R_MOVE, R_INMOVE, R_OTHER };
static const int cats_insert[] = { R_PTR, R_IN, R_FWD, R_BIDI, R_RAND, R_MOVE, R_INMOVE, R_OTHER };
#elif COPYABLE
static const int cats_assign[] = { R_PTR, R_IN, R_FWD, R_BIDI, R_RAND, R_OTHER };
static const int cats_insert[] = { R_PTR, R_IN, R_FWD, R_BIDI, R_RAND, R_OTHER };
#else
static const int cats_assign[] = { R_MOVE, R_INMOVE };
static const int cats_insert[] = { R_INMOVE };
#endif
#define NCATS(a) (sizeof(a) / sizeof((a)[0]))

// calls `STMT` with FIRST/LAST iterators of the chosen category
#if COPYABLE
#define RANGE_COPY_CASES(STMT) \
    case R_PTR: { const Elem* F = src.data; const Elem* L = src.data + src.n; STMT; break; } \
    case R_IN: if (src.own) { InIt<const Elem&, SinglePassTag> F(&src, 0), L(&src, src.n); STMT; } else { InIt<const Elem&> F(&src, 0), L(&src, src.n); STMT; } break; \
    case R_FWD: { MonIt<std::forward_iterator_tag> F(&src, 0), L(&src, src.n); STMT; break; } \
    case R_BIDI: { MonIt<std::bidirectional_iterator_tag> F(&src, 0), L(&src, src.n); STMT; break; } \
    case R_RAND: if (src.own) { MonIt<RandomTag> F(&src, 0), L(&src, src.n); STMT; } else { MonIt<std::random_access_iterator_tag> F(&src, 0), L(&src, src.n); STMT; } break; \
    case R_OTHER: { const C& yc = *Y->c; CIt F = yc.begin(), L = yc.end(); STMT; break; }
#define RANGE_COPY_CASES_ASSIGN(STMT) RANGE_COPY_CASES(STMT)
#else
#define RANGE_COPY_CASES(STMT)
#endif
#if CXX11
#define RANGE_MOVE_CASE(STMT) case R_MOVE: { std::move_iterator<Elem*> F(src.data), L(src.data + src.n); STMT; break; }
#define RANGE_INMOVE_CASE(STMT) case R_INMOVE: { InIt<Elem&&> F(&src, 0), L(&src, src.n); STMT; break; }
#else
#define RANGE_MOVE_CASE(STMT)
#define RANGE_INMOVE_CASE(STMT)
#endif
#if COPYABLE
#define RANGE_INSERT_SWITCH(cat, STMT) switch (cat) { RANGE_COPY_CASES(STMT) RANGE_MOVE_CASE(STMT) RANGE_INMOVE_CASE(STMT) default: break; }
#else
#define RANGE_INSERT_SWITCH(cat, STMT) switch (cat) { RANGE_INMOVE_CASE(STMT) default: break; }
#endif
#define RANGE_ASSIGN_SWITCH(cat, STMT) switch (cat) { RANGE_COPY_CASES(STMT) RANGE_MOVE_CASE(STMT) RANGE_INMOVE_CASE(STMT) default: break; }

static void check_source(const Source& src, int cat) {
    if (cat == R_MOVE || cat == R_INMOVE) return;
    for (int i = 0; i < src.n; ++i) if (val(src.data[i]) != src.vals[i]) fail(T_RANGE, "element %d of the source range was modified", i);
}

static void check_ret_index(C& c, It r, size_t want, const char* what) {
    size_t n = c.size();
    if (want > n) want = n;
    bool ok = want == n ? r == c.end() : (r != c.end() && r == c.begin() + want && &*r == &c[want]);
    if (!ok) fail(T_RET, "%s returned a wrong iterator (distance %ld from begin, expected %zu of %zu)", what, (long)(r - c.begin()), want, n);
}

static void apply_cap_change_keep(bool changed) {
    if (!changed) keep_shift(0, keep.size(), 0);
}

static std::vector<int> tail(const std::vector<int>& v, size_t k) { return v.size() > k ? std::vector<int>(v.end() - k, v.end()) : v; }
static std::vector<int> head(const std::vector<int>& v, size_t k) { return v.size() > k ? std::vector<int>(v.begin(), v.begin() + k) : v; }

// replace X's container by a freshly constructed one
static void adopt(C* N, int id) {
    delete X->c; X->c = N; X->id = id;
}

#define SO (CONT == 1)

static void itlaws(Cont& Z, const Op& op);
static void algo(Cont& Z, const Op& op);
static void compare_op(const Op& op);
static void write_view(const Op& op);
static void at_oor(const Op& op);
static void pool_op(const Op& op);

static void check_arg_unchanged(const Elem& e, int v) {
    if (val(e) != v) fail(T_MOVE, "an argument passed as a constant was modified");
}
static void check_arg_moved(const Elem& e, bool inserted) {
#if MOVABLE_TRACKED
    if (inserted && threw == 0 && !e.moved) fail(T_MOVE, "a value passed as an rvalue was copied instead of moved");
#endif
    (void)e; (void)inserted;
}

static void do_step(const Op& op, int index);

static void step(const Op& op, int index) {
    X = (op.d & 1) ? &B : &A; Y = (op.d & 1) ? &A : &B;
    g_res->op_index = index; g_res->op_code = op.code;
    classify(op);
    oldm = X->m; oldcap = X->cap; oldmin = X->mincap; oldblk = block_n(*X);
    oldaddr.clear();
    for (size_t i = 0; i < oldm.size(); ++i) oldaddr.push_back(&(*X->c)[i]);
    keep_none(oldm.size()); keep_end = true; keep_mode = 0; other_invalid = false;
    newvals.clear(); exp_ = oldm; expcap = oldcap; expmin = oldmin; exact_blk = -1;
    shrink_op = grow_op = copy_like = false; grow_need = 0; costlimit = 0; has_cost = false; noalloc = false; strong = false; nothrow_op = false; copies_max = -1;
    want_id = X->id; threw = 0; memset(&D, 0, sizeof D); hits = 0; G.kind = (int)((op.a + op.b + op.c) % 3);
    if (g_trace) { printf("#%d %s a=%u b=%u c=%u d=%u f=%u  on %s cap=%zu %s\n", index, op_names[op.code], op.a, op.b, op.c, op.d, op.f, X == &A ? "A" : "B", X->cap, show(X->m).c_str()); fflush(stdout); }
    do_step(op, index);
}

static void finish() {
    int xw = X == &A ? 0 : 1;
    if (nothrow_op && hits) fail(T_NOTHROW, "an operation documented not to throw performed %d operations that may throw", hits);
    if (nothrow_op && threw) fail(T_NOTHROW, "an operation documented not to throw threw");
    if (threw == 1) {
        had_throw = true; fill_ok = false;
        g_res->throws_ = g_res->throws_ + 1;
        g_res->feats = g_res->feats | FE_THREW;
        if (strong) {
            C& c = *X->c;
            if (cap_of(c) != oldcap || mincap_of(c) != oldmin) fail(T_STRONG, "failed operation changed the capacity from %zu/%zu to %zu/%zu", oldcap, oldmin, (size_t)cap_of(c), (size_t)mincap_of(c));
            if (c.size() != oldm.size()) fail(T_STRONG, "failed operation changed the size from %zu to %zu", oldm.size(), (size_t)c.size());
            for (size_t i = 0; i < oldm.size(); ++i) {
                if (val(c[i]) != oldm[i]) fail(T_STRONG, "failed operation changed element %zu", i);
                if (&c[i] != oldaddr[i]) fail(T_STRONG, "failed operation relocated element %zu", i);
            }
        } else {
            accept_actual(*X, oldm, newvals, oldcap, expcap, oldmin, expmin, X == &A ? "A" : "B");
        }
        pool_unknown(xw);
        if (keep_mode || other_invalid) pool_unknown(xw ^ 1);
            verify_all(true);
        return;
    }
    if (threw == 2 || threw == 3) fail(T_RET, "unexpected %s", threw == 2 ? "length_error" : "out_of_range");
    if (X->c->size() > 0 && cap_of(*X->c) != oldcap) g_res->feats = g_res->feats | FE_REALLOC;
    X->m = exp_; X->cap = expcap; X->mincap = expmin;
    verify_all(true);
#if CONT == 0
    // references and iterators documented as kept
    if (keep_mode == 0) for (size_t i = 0; i < keep.size(); ++i) if (keep[i] >= 0) {
        if (keep[i] >= (long)X->m.size()) continue;
        if (&(*X->c)[keep[i]] != oldaddr[i]) fail(T_STAB, "element %zu should have kept its address (now index %ld)", i, keep[i]);
    }
    if (has_cost) {
        size_t used = D.cc + D.mc + D.ca + D.ma + D.def;
        if (used > costlimit) fail(T_COST, "%zu element operations were performed, the documented bound allows about %zu", used, costlimit);
    }
#if ALLOC == A_FANCY && !DEBUGMODE
    size_t gone = oldm.size() > exp_.size() ? oldm.size() - exp_.size() : 0; // only whole and end removals of scalars are documented to be constant
    if (g_res->op_code == CLEAR || g_res->op_code == ERASE_BEGIN || g_res->op_code == ERASE_END) gone = 0;
    if (has_cost && D.steps > 100 + 16 * (costlimit + D.d + gone)) fail(T_COST, "%lu pointer steps in an operation bounded by about %zu element operations", D.steps, costlimit);
#endif
    if (noalloc && D.allocs) fail(T_NOALLOC, "%lu allocations in an operation that needs no memory", D.allocs);
#if SCALAR && ALLOC == A_STATEFUL && CXX11 && !DEBUGMODE
    if (D.hookd && D.allocs == 0 && shrink_op) fail(T_COST, "bulk removal of scalars destroyed them one by one (%lu)", D.hookd);
#endif
#else
    { // operations that touch no storage of their own cost the same as on the plain buffer
        int oc = g_res->op_code; bool same = oc == SWAP || oc == SWAP_FREE || oc == MOVE_ASSIGN || oc == SELF_ASSIGN || oc == LINEARIZE || oc == ROTATE;
        size_t used = D.cc + D.mc + D.ca + D.ma + D.def;
        if (same && has_cost && used > costlimit) fail(T_COST, "%zu element operations were performed, the documented bound allows about %zu", used, costlimit);
        if (same && noalloc && D.allocs) fail(T_NOALLOC, "%lu allocations in an operation that needs no memory", D.allocs);
    }
#if ATRACK
    {
        size_t bn = block_n(*X);
        if (exact_blk >= 0) { if (bn != (size_t)exact_blk) fail(T_MEM, "storage for %zu elements was allocated, documented is %ld", bn, exact_blk); }
        else if (!copy_like) {
            if (oldblk >= oldmin && expmin == oldmin && bn < expmin) fail(T_MEM, "storage fell to %zu, below the minimum capacity %zu", bn, expmin);
            if (expmin > oldmin && bn < expmin) fail(T_MEM, "storage %zu is below the new minimum capacity %zu", bn, expmin);
            if (shrink_op && bn > std::max(expmin, 6 * exp_.size() + 8)) fail(T_MEM, "storage for %zu elements is kept after removal down to %zu elements", bn, exp_.size());
            if (grow_op && bn > std::max(std::max(oldblk, expmin), 8 * grow_need + 16)) fail(T_MEM, "storage grew from %zu to %zu for %zu elements", oldblk, bn, grow_need);
            if (!shrink_op && !grow_op && bn != oldblk) fail(T_MEM, "storage changed from %zu to %zu in an operation that neither adds nor removes", oldblk, bn);
        }
    }
#endif
#endif
#if (ELEM == E_NMOVE || ELEM == E_BIG) && CXX11
    if (copies_max >= 0 && (long)(D.cc + D.ca) > copies_max) fail(T_MOVE, "%lu copies of nothrow-movable elements (at most %ld are needed)", D.cc + D.ca, copies_max);
#endif
    maybe_kept = false;
#if SO
    if (keep_mode == 0 && exp_ == oldm && expcap == oldcap && expmin == oldmin && block_n(*X) == oldblk) {
        maybe_kept = true;
        for (size_t i = 0; i < oldm.size(); ++i) if (&(*X->c)[i] != oldaddr[i]) maybe_kept = false;
    }
#endif
    pool_update();
    pool_verify();
}

static void cost(size_t bound) { has_cost = true; costlimit = 4 * bound + 4; }

#if SO
#define SO_INVALIDATES_ALL() keep_none(oldm.size())
#else
#define SO_INVALIDATES_ALL() ((void)0)
#endif

// a count and a value given as two numbers of the same integral type
#if ELEM == E_LONG
#define INT_PAIR(...) do { const Elem iv = mkarg(v); if (op.c / 4 % 2) { typedef long I; CALL(__VA_ARGS__); } else { typedef long long I; CALL(__VA_ARGS__); } } while (0)
#else
#define INT_PAIR(...) do { const int iv = v; unsigned which_ = op.c / 4 % 6; \
    if (which_ == 1 && v < 256 && cap < 200) { typedef unsigned char I; CALL(__VA_ARGS__); } else if (which_ == 2 && v < 30000) { typedef short I; CALL(__VA_ARGS__); } \
    else if (which_ == 3) { typedef unsigned long I; CALL(__VA_ARGS__); } else if (which_ == 4) { typedef long long I; CALL(__VA_ARGS__); } \
    else { typedef int I; CALL(__VA_ARGS__); } } while (0)
#endif
static void do_step(const Op& op, int) {
    STEP_DECL
    switch (op.code) {
    // ------------------------------------------------------------ push / pop
    case PUSH_BACK_C: case PUSH_BACK_R: case PUSH_BACK_D: case PUSH_BACK_ALIAS: {
        int v = 0;
        if (op.code == PUSH_BACK_ALIAS) {
            if (n == 0) return;
#if COPYABLE
            size_t i = op.a % n; v = oldm[i];
            CALL(c.push_back(static_cast<const Elem&>(c[i])));
#endif
        } else if (op.code == PUSH_BACK_D) { v = DEFAULT_V; CALL(c.push_back()); }
        else {
            v = nv(); MK(item, v);
            if (op.code == PUSH_BACK_C) {
#if COPYABLE
                CALL(c.push_back(static_cast<const Elem&>(item))); check_arg_unchanged(item, v);
#endif
            } else {
#if CXX11
                CALL(c.push_back(std::move(item))); check_arg_moved(item, cap > 0);
#endif
            }
        }
        newvals.push_back(v);
        exp_ = model_insert(oldm, cap, n, newvals);
        if (n == cap) { if (cap) keep_shift(1, n, -1); } else keep_shift(0, n, 0);
        SO_INVALIDATES_ALL();
        cost(0); noalloc = true; grow_op = true; grow_need = std::min(cap, n + 1);
        copies_max = (op.code == PUSH_BACK_C || op.code == PUSH_BACK_ALIAS) ? 1 : 0;
        break; }
    case PUSH_FRONT_C: case PUSH_FRONT_R: case PUSH_FRONT_D: case PUSH_FRONT_ALIAS: {
        int v = 0;
        if (op.code == PUSH_FRONT_ALIAS) {
            if (n == 0) return;
#if COPYABLE
            size_t i = op.a % n; v = oldm[i];
            CALL(c.push_front(static_cast<const Elem&>(c[i])));
#endif
        } else if (op.code == PUSH_FRONT_D) { v = DEFAULT_V; CALL(c.push_front()); }
        else {
            v = nv(); MK(item, v);
            if (op.code == PUSH_FRONT_C) {
#if COPYABLE
                CALL(c.push_front(static_cast<const Elem&>(item))); check_arg_unchanged(item, v);
#endif
            } else {
#if CXX11
                CALL(c.push_front(std::move(item))); check_arg_moved(item, cap > 0);
#endif
            }
        }
        newvals.push_back(v);
        exp_ = model_rinsert(oldm, cap, 0, newvals);
        if (n == cap) { if (cap) keep_shift(0, n - 1, 1); } else keep_shift(0, n, 1);
        SO_INVALIDATES_ALL();
        cost(0); noalloc = true; grow_op = true; grow_need = std::min(cap, n + 1);
        copies_max = (op.code == PUSH_FRONT_C || op.code == PUSH_FRONT_ALIAS) ? 1 : 0;
        break; }
    case POP_BACK: if (!n) return;
        CALL(c.pop_back()); exp_.pop_back(); keep_shift(0, n - 1, 0); SO_INVALIDATES_ALL(); cost(0); noalloc = true; nothrow_op = !SO; shrink_op = SO; copies_max = 0; break;
    case POP_FRONT: if (!n) return;
        CALL(c.pop_front()); exp_.erase(exp_.begin()); keep_shift(1, n, -1); SO_INVALIDATES_ALL(); cost(0); noalloc = true; nothrow_op = !SO; shrink_op = SO; copies_max = 0; break;
    // ------------------------------------------------------------ insert
    case INS_C: case INS_R: case INS_D: {
        size_t p = op.a % (n + 1); int v = nv(); It r = c.end();
        It pos = mkpos(c, p, op.c);
        if (op.code == INS_D) { v = DEFAULT_V; CALL(r = c.insert(pos)); }
        else { MK(item, v);
            if (op.code == INS_C) {
#if COPYABLE
                CALL(r = c.insert(pos, static_cast<const Elem&>(item))); check_arg_unchanged(item, v);
#endif
            } else {
#if CXX11
                CALL(r = c.insert(pos, std::move(item))); check_arg_moved(item, !(n == cap && p == 0));
#endif
            } }
        newvals.push_back(v);
        exp_ = model_insert(oldm, cap, p, newvals);
        if (n == cap && p == 0) keep_shift(0, n, 0); else { size_t d = n == cap ? 1 : 0; keep_shift(d, p, -(long)d); }
        SO_INVALIDATES_ALL();
        cost(n - p + 1); noalloc = true; grow_op = true; grow_need = std::min(cap, n + 1); copies_max = op.code == INS_C ? 1 : 0;
        if (threw == 0) {
            if (c.size() != exp_.size()) fail(T_CONTENT, "insert left size %zu, expected %zu", (size_t)c.size(), exp_.size());
            check_ret_index(c, r, n == cap ? (p ? p - 1 : 0) : p, "insert");
        }
        break; }
    case INS_N: case INS_INT: {
#if COPYABLE
        size_t p = op.a % (n + 1), k = ncount(op, cap); int v = nv();
        if (op.code == INS_INT) k = op.b % (cap + 4);
        size_t ke = std::min(k, cap + 1);
        It pos = mkpos(c, p, op.c);
        if (op.code == INS_N) { MK(item, v); CALL(c.insert(pos, k, static_cast<const Elem&>(item))); check_arg_unchanged(item, v); }
        else {
#if ELEM != E_STR
            INT_PAIR(c.insert(pos, (I)k, (I)iv));
#endif
        }
        newvals.assign(ke, v);
        exp_ = model_insert(oldm, cap, p, newvals);
        size_t drop = n + ke > cap ? n + ke - cap : 0;
        if (ke == 0 || (n == cap && p == 0)) keep_shift(0, n, 0); else keep_shift(drop, p, -(long)drop);
        SO_INVALIDATES_ALL();
        cost(std::min(cap, n - p + ke) + 1); noalloc = true; grow_op = true; grow_need = std::min(cap, n + ke);
        break;
#else
        return;
#endif
    }
    case INS_RANGE: {
        size_t p = op.a % (n + 1); int cat = cats_insert[op.c % NCATS(cats_insert)];
        int k = (int)(op.b % (cap + 4));
        if (k > 300 && cap > 2000 && (cat == R_IN || cat == R_INMOVE)) k %= 300; // element by element
        int first = counter_v + 1; counter_v += k + 1;
        if (cat == R_OTHER) { k = 0; newvals = Y->m; }
        { Source src(k, first);
          if (cat != R_OTHER) newvals = src.vals;
          It pos = mkpos(c, p, op.c / 16);
          int th = 0;
          RANGE_INSERT_SWITCH(cat, CALL(c.insert(pos, F, L)));
          (void)th; (void)pos;
          check_source(src, cat);
        }
        size_t ke = newvals.size();
        exp_ = model_insert(oldm, cap, p, newvals);
        size_t drop = n + ke > cap ? n + ke - cap : 0;
        if (ke == 0 || (n == cap && p == 0)) keep_shift(0, n, 0); else keep_shift(drop, p, -(long)drop);
        if (cat == R_IN || cat == R_INMOVE) { // element by element: same content
            cost((n - p + ke + 1) * (ke + 1)); noalloc = !SO;
            if (ke && !(n == cap && p == 0)) { keep_none(n); keep_shift(drop, p, -(long)drop); }
        } else { cost(std::min(cap, n - p + ke) + 1); noalloc = true; }
        SO_INVALIDATES_ALL();
        grow_op = true; grow_need = std::min(cap, n + ke);
        break; }
    case RINS_C: case RINS_R: case RINS_D: {
        size_t p = op.a % (n + 1); int v = nv(); It r = c.end();
        It pos = mkpos(c, p, op.c);
        bool none = n == cap && p == n;
        if (op.code == RINS_D) { v = DEFAULT_V; CALL(r = c.rinsert(pos)); }
        else { MK(item, v);
            if (op.code == RINS_C) {
#if COPYABLE
                CALL(r = c.rinsert(pos, static_cast<const Elem&>(item))); check_arg_unchanged(item, v);
#endif
            } else {
#if CXX11
                CALL(r = c.rinsert(pos, std::move(item))); check_arg_moved(item, !none);
#endif
            } }
        newvals.push_back(v);
        exp_ = model_rinsert(oldm, cap, p, newvals);
        if (none) keep_shift(0, n, 0); else keep_shift(p, n == cap ? n - 1 : n, 1);
        SO_INVALIDATES_ALL();
        cost(p + 1); noalloc = true; grow_op = true; grow_need = std::min(cap, n + 1); copies_max = op.code == RINS_C ? 1 : 0;
        if (threw == 0) {
            if (c.size() != exp_.size()) fail(T_CONTENT, "rinsert left size %zu, expected %zu", (size_t)c.size(), exp_.size());
            check_ret_index(c, r, none ? exp_.size() : p, "rinsert");
        }
        break; }
    case RINS_N: case RINS_INT: {
#if COPYABLE
        size_t p = op.a % (n + 1), k = ncount(op, cap); int v = nv();
        if (op.code == RINS_INT) k = op.b % (cap + 4);
        size_t ke = std::min(k, cap + 1);
        It pos = mkpos(c, p, op.c);
        if (op.code == RINS_N) { MK(item, v); CALL(c.rinsert(pos, k, static_cast<const Elem&>(item))); check_arg_unchanged(item, v); }
        else {
#if ELEM != E_STR
            INT_PAIR(c.rinsert(pos, (I)k, (I)iv));
#endif
        }
        newvals.assign(ke, v);
        exp_ = model_rinsert(oldm, cap, p, newvals);
        if (ke == 0 || (n == cap && p == n)) keep_shift(0, n, 0); else if (p + ke < cap) keep_shift(p, std::min(n, cap - ke), (long)ke);
        SO_INVALIDATES_ALL();
        cost(std::min(cap, p + ke) + 1); noalloc = true; grow_op = true; grow_need = std::min(cap, n + ke);
        break;
#else
        return;
#endif
    }
    case RINS_RANGE: {
        size_t p = op.a % (n + 1); int cat = cats_insert[op.c % NCATS(cats_insert)];
        int k = (int)(op.b % (cap + 4));
        if (k > 300 && cap > 2000 && (cat == R_IN || cat == R_INMOVE)) k %= 300; // element by element
        int first = counter_v + 1; counter_v += k + 1;
        if (cat == R_OTHER) { k = 0; newvals = Y->m; }
        { Source src(k, first);
          if (cat != R_OTHER) newvals = src.vals;
          It pos = mkpos(c, p, op.c / 16);
          RANGE_INSERT_SWITCH(cat, CALL(c.rinsert(pos, F, L)));
          (void)pos;
          check_source(src, cat);
        }
        size_t ke = newvals.size();
        exp_ = model_rinsert(oldm, cap, p, newvals);
        if (ke == 0 || (n == cap && p == n)) keep_shift(0, n, 0); else if (p + ke < cap) keep_shift(p, std::min(n, cap - ke), (long)ke);
        if (cat == R_IN || cat == R_INMOVE) { cost((p + ke + 1) * (ke + 1)); noalloc = !SO; }
        else { cost(std::min(cap, p + ke) + 1); noalloc = true; }
        SO_INVALIDATES_ALL();
        grow_op = true; grow_need = std::min(cap, n + ke);
        break; }
    // ------------------------------------------------------------ erase
    case ERASE: { if (!n) return; size_t p = op.a % n; It r = c.end(); It pos = mkpos(c, p, op.c);
        CALL(r = c.erase(pos)); exp_.erase(exp_.begin() + p); keep_shift(0, p, 0); SO_INVALIDATES_ALL(); cost(n - p); noalloc = true; shrink_op = SO; copies_max = 0;
        if (threw == 0) { if (c.size() != exp_.size()) fail(T_CONTENT, "erase left size %zu", (size_t)c.size()); check_ret_index(c, r, p, "erase"); }
        break; }
    case ERASE_RANGE: { size_t p = op.a % (n + 1), q = p + op.b % (n - p + 1); It r = c.end(); It f = mkpos(c, p, op.c), l = mkpos(c, q, op.c / 3);
        CALL(r = c.erase(f, l)); exp_.erase(exp_.begin() + p, exp_.begin() + q);
        if (p == q) keep_shift(0, n, 0); else keep_shift(0, p, 0);
        SO_INVALIDATES_ALL(); cost(n - p); noalloc = true; shrink_op = SO; copies_max = 0;
        if (threw == 0) { if (c.size() != exp_.size()) fail(T_CONTENT, "erase left size %zu", (size_t)c.size()); check_ret_index(c, r, p, "erase"); }
        break; }
    case RERASE: { if (!n) return; size_t p = op.a % n; It r = c.end(); It pos = mkpos(c, p, op.c);
        CALL(r = c.rerase(pos)); exp_.erase(exp_.begin() + p); keep_shift(p + 1, n, -1); SO_INVALIDATES_ALL(); cost(p + 1); noalloc = true; shrink_op = SO; copies_max = 0;
        if (threw == 0) { if (c.size() != exp_.size()) fail(T_CONTENT, "rerase left size %zu", (size_t)c.size()); check_ret_index(c, r, p ? p - 1 : 0, "rerase"); }
        break; }
    case RERASE_RANGE: { size_t p = op.a % (n + 1), q = p + op.b % (n - p + 1); It r = c.end(); It f = mkpos(c, p, op.c), l = mkpos(c, q, op.c / 3);
        CALL(r = c.rerase(f, l)); exp_.erase(exp_.begin() + p, exp_.begin() + q);
        if (p == q) keep_shift(0, n, 0); else keep_shift(q, n, -(long)(q - p));
        SO_INVALIDATES_ALL(); cost(q); noalloc = true; shrink_op = SO; copies_max = 0;
        if (threw == 0 && p != q) { if (c.size() != exp_.size()) fail(T_CONTENT, "rerase left size %zu", (size_t)c.size()); check_ret_index(c, r, p ? p - 1 : 0, "rerase"); }
        break; }
#if CONT == 0
    case ERASE_BEGIN: { size_t k = op.a % (n + 1); CALL(c.erase_begin(k)); exp_.erase(exp_.begin(), exp_.begin() + k); keep_shift(k, n, -(long)k); cost(SCALAR ? 0 : k); noalloc = true; shrink_op = true; copies_max = 0; break; }
    case ERASE_END: { size_t k = op.a % (n + 1); CALL(c.erase_end(k)); exp_.resize(n - k); keep_shift(0, n - k, 0); cost(SCALAR ? 0 : k); noalloc = true; shrink_op = true; copies_max = 0; break; }
#else
    case ERASE_BEGIN: case ERASE_END: return;
#endif
    case CLEAR: CALL(c.clear()); exp_.clear(); cost(0); noalloc = true; nothrow_op = !SO; shrink_op = true; break;
    // ------------------------------------------------------------ capacity and size
    case SET_CAP: case RSET_CAP: {
        size_t nc = op.a % (2 * cap + 6); if (op.d & 4) nc = cap;
        if ((op.a >= 1000 && (op.a >> 20 & 1)) || nc > 25000) nc = nc % 64;
        size_t nm = SO ? op.b % (nc + 1) : 0;
        expcap = nc; expmin = nm;
#if ELEM != E_TMONLY
        if (op.code == SET_CAP) { CALL(c.set_capacity(mkcap(nc, nm))); exp_ = head(oldm, nc); }
        else { CALL(c.rset_capacity(mkcap(nc, nm))); exp_ = tail(oldm, nc); }
#else
        return;
#endif
        if (nc == cap) { apply_cap_change_keep(false); cost(0); has_cost = true; costlimit = 0; noalloc = true; } else cost(std::min(n, nc));
        SO_INVALIDATES_ALL();
        strong = true; shrink_op = SO; copies_max = 0;
        break; }
    case RESIZE: case RESIZE_D: case RRESIZE: case RRESIZE_D: {
#if COPYABLE
        size_t ns = op.a % (cap + 6); if ((op.a >= 1000 && (op.a >> 20 & 1)) || ns > 25000) ns = ns % 64;
        int v = nv();
        if (ns > cap) expcap = ns;
        if (op.code == RESIZE || op.code == RRESIZE) { MK(item, v);
            if (op.code == RESIZE) CALL(c.resize(ns, static_cast<const Elem&>(item))); else CALL(c.rresize(ns, static_cast<const Elem&>(item)));
            check_arg_unchanged(item, v);
        } else { v = DEFAULT_V; if (op.code == RESIZE_D) CALL(c.resize(ns)); else CALL(c.rresize(ns)); }
        newvals.assign(ns > n ? ns - n : 0, v);
        bool fwd = op.code == RESIZE || op.code == RESIZE_D;
        if (ns > n) { if (fwd) exp_.insert(exp_.end(), newvals.begin(), newvals.end()); else exp_.insert(exp_.begin(), newvals.begin(), newvals.end()); }
        else exp_ = fwd ? head(oldm, ns) : tail(oldm, ns);
        if (ns <= cap) { if (ns > n) keep_shift(0, n, fwd ? 0 : (long)(ns - n)); else if (fwd) keep_shift(0, ns, 0); else keep_shift(n - ns, n, -(long)(n - ns)); }
        SO_INVALIDATES_ALL();
        cost(ns + 1); noalloc = ns <= cap;
        grow_op = ns > n; shrink_op = SO && ns <= n; grow_need = ns;
        break;
#else
        return;
#endif
    }
    case SET_CAP_OVER: case RSET_CAP_OVER: case RESIZE_OVER: {
        size_t mx = c.max_size();
        if (mx >= (size_t)-1 - 8) return;
        size_t nc = mx + 1 + op.a % 4;
        if (op.a & 8) nc = (size_t)-1 - (op.a % 4);
        if (op.code == RESIZE_OVER) {
#if COPYABLE && CONT == 0
            MK(item, 1); CALL(c.resize(nc, static_cast<const Elem&>(item)));
#else
            return;
#endif
        }
#if ELEM != E_TMONLY
        else if (op.code == SET_CAP_OVER) CALL(c.set_capacity(mkcap(nc, nc)));
        else CALL(c.rset_capacity(mkcap(nc, nc)));
#else
        else return;
#endif
        if (threw != 2) fail(T_RET, "a capacity above max_size() did not raise length_error");
#if ALLOC == A_STATEFUL && ELEM != E_TMONLY
        if (!(op.a & 16) && (op.d >> 4 & 15) == 9) { // the largest capacity of all is granted
            int th0 = threw; begin_call(0);
            try {
                C z(mkcap(3, 0), mkal(alid(static_cast<const C&>(c).get_allocator())));
                if (op.code == RSET_CAP_OVER) z.rset_capacity(mkcap(mx, 0)); else z.set_capacity(mkcap(mx, 0));
                if (cap_of(z) != mx || !z.empty()) { end_call(); fail(T_CAP, "a capacity of max_size() was requested: the capacity is %zu", (size_t)cap_of(z)); }
                z.set_capacity(mkcap(0, 0));
            } catch (...) { end_call(); fail(T_RET, "a capacity equal to max_size() was refused"); }
            end_call(); threw = th0; hits = 0; D.allocs = 0;
        }
#endif
        if (hits || D.allocs) fail(T_RET, "memory was requested or elements touched before length_error was raised");
        threw = 0;
        keep_shift(0, n, 0); SO_INVALIDATES_ALL();
        if (X->c->size() != n || cap_of(c) != oldcap || mincap_of(c) != oldmin) fail(T_STRONG, "length_error changed the buffer: size %zu->%zu capacity %zu->%zu", n, (size_t)c.size(), oldcap, (size_t)cap_of(c));
#if SO && DEBUGMODE
        pool_unknown(X == &A ? 0 : 1);
#endif
        break; }
    // ------------------------------------------------------------ access
    case WRITE_VIEW: write_view(op); keep_shift(0, n, 0); break;
    case AT_OOR: at_oor(op); keep_shift(0, n, 0); break;
    case LINEARIZE: {
        bool lin = true; for (size_t i = 1; i < n; ++i) if (&c[i] != &c[0] + i) lin = false;
        bool two = n && c.array_two().second;
        C::pointer r = C::pointer(); CALL(r = c.linearize());
        if (threw == 0) {
            if (n == 0) { if (raw_ptr(r) != 0) fail(T_RET, "linearize() of an empty buffer returned a non-null pointer"); }
            else {
                if (raw_ptr(r) != &c[0]) fail(T_RET, "linearize() did not return a pointer to the first element");
                if (c.array_two().second != 0 || c.array_one().second != n || !c.is_linearized()) fail(T_RET, "buffer is not linear after linearize()");
            }
            if (!c.is_linearized()) fail(T_RET, "is_linearized() is false after linearize()");
        }
        (void)two;
        if (lin) { keep_shift(0, n, 0); cost(0); has_cost = true; costlimit = 0; } else { cost(n); copies_max = 0; }
        noalloc = true;
        if (lin && hits) fail(T_COST, "linearize() of a linear buffer touched elements");
        break; }
    case ROTATE: {
        if (!n) return;
        size_t p = op.a % n; CIt pos = mkpos(c, p, op.c);
        bool phys_full = n == cap;
#if SO
        phys_full = n == c.internal_capacity();
#endif
        CALL(c.rotate(pos));
        std::rotate(exp_.begin(), exp_.begin() + p, exp_.end());
        if (phys_full) { for (size_t i = 0; i < n; ++i) keep[i] = (long)((i + n - p) % n); has_cost = true; costlimit = 0; nothrow_op = true; }
        else { size_t m = n - p; if (m < p) keep_shift(0, p, (long)m); else keep_shift(p, n, -(long)p); cost(std::min(m, p)); if (p == 0) { nothrow_op = true; costlimit = 0; } }
        noalloc = true; copies_max = 0;
        break; }
    // ------------------------------------------------------------ assignment
    case ASSIGN_N: case ASSIGN_INT: {
#if COPYABLE
        size_t k = op.a % (cap + 5); if (op.a >= 1000) k %= 48; if (op.d & 2) k = cap; if (k > 25000) k %= 48;
        int v = nv(); expcap = k; expmin = 0;
        if (op.code == ASSIGN_N) { MK(item, v); CALL(c.assign(k, static_cast<const Elem&>(item))); check_arg_unchanged(item, v); }
        else {
#if ELEM != E_STR
            INT_PAIR(c.assign((I)k, (I)iv));
#endif
        }
        newvals.assign(k, v); exp_ = newvals; exact_blk = (long)k; cost(k + 1);
        break;
#else
        return;
#endif
    }
    case ASSIGN_CAP_N: case ASSIGN_CAP_INT: {
#if COPYABLE
        size_t nc = op.a % (cap + 5); if (op.a >= 1000 && (op.a >> 20 & 1)) nc %= 48; if (op.d & 2) nc = cap; if (nc > 25000 && nc != cap) nc %= 48;
        size_t k = op.b % (nc + 1), mn = SO ? (op.c / 8) % (nc + 1) : 0;
        int v = nv(); expcap = nc; expmin = mn;
        if (op.code == ASSIGN_CAP_N) { MK(item, v); CALL(c.assign(mkcap(nc, mn), k, static_cast<const Elem&>(item))); check_arg_unchanged(item, v); }
        else {
#if ELEM != E_STR
            INT_PAIR(c.assign(mkcap(nc, mn), (I)k, (I)iv));
#endif
        }
        newvals.assign(k, v); exp_ = newvals; exact_blk = (long)std::max(k, mn); cost(k + 1);
        break;
#else
        return;
#endif
    }
    case ASSIGN_RANGE: case ASSIGN_CAP_RANGE: {
        int cat = cats_assign[op.c % NCATS(cats_assign)];
        size_t nc = op.a % (cap + 5); if (op.a >= 1000 && (op.a >> 20 & 1)) nc %= 48; if (op.d & 2) nc = cap; if (nc > 25000 && nc != cap) nc %= 48;
        int k = (int)(op.b % (nc + 4)); size_t mn = SO ? (op.c / 64) % (nc + 1) : 0;
        if (op.code == ASSIGN_RANGE) { k = (int)nc; }
        int first = counter_v + 1; counter_v += k + 1;
        if (cat == R_OTHER) { k = 0; newvals = Y->m; }
        { Source src(k, first);
          if (cat != R_OTHER) newvals = src.vals;
          if (op.code == ASSIGN_RANGE) { expcap = newvals.size(); expmin = 0; RANGE_ASSIGN_SWITCH(cat, CALL(c.assign(F, L))); }
          else { expcap = nc; expmin = mn; CapT cp = mkcap(nc, mn); RANGE_ASSIGN_SWITCH(cat, CALL(c.assign(cp, F, L))); }
          check_source(src, cat);
        }
        exp_ = tail(newvals, expcap);
        exact_blk = (long)std::max(exp_.size(), expmin);
        if (op.code == ASSIGN_CAP_RANGE && (cat == R_IN || cat == R_INMOVE)) copy_like = true;
        cost(2 * newvals.size() + 1);
        break; }
    case COPY_ASSIGN: {
#if COPYABLE
        expcap = Y->cap; expmin = Y->mincap; newvals = Y->m; exp_ = newvals;
        C* ret = 0;
        CALL(ret = &(c = static_cast<const C&>(*Y->c)));
        if (threw == 0 && ret != &c) fail(T_RET, "assignment does not return the target");
        strong = true; exact_blk = (long)Y->m.size(); cost(newvals.size());
        break;
#else
        return;
#endif
    }
    case SELF_ASSIGN: {
        int var = op.c % 3;
#if !COPYABLE
        if (var == 0) return;
#endif
        if (var) { C& self = c; if (var == 1) CALL(c.swap(self)); else { using std::swap; CALL(swap(c, self)); } if (DEBUGMODE) pool_unknown(X == &A ? 0 : 1); }
#if COPYABLE
        else { const C& self = c; C* ret = 0; CALL(ret = &(c = self)); if (threw == 0 && ret != &c) fail(T_RET, "assignment does not return the target"); }
#endif
        keep_shift(0, n, 0); has_cost = true; costlimit = 0; noalloc = true; nothrow_op = true; copy_like = true;
        break;
    }
#if CXX11
    case MOVE_ASSIGN: {
        std::vector<const Elem*> ya; for (size_t i = 0; i < Y->m.size(); ++i) ya.push_back(&(*Y->c)[i]);
        expcap = Y->cap; expmin = Y->mincap; exp_ = Y->m; int yid = Y->id;
        C* ret = 0;
        CALL(ret = &(c = std::move(*Y->c)));
        if (ret != &c) fail(T_RET, "move assignment does not return the target");
        Y->m.clear(); Y->cap = 0; Y->mincap = 0; X->id = yid;
        if (Y->c->size() != 0) fail(T_CONTENT, "moved-from buffer is not empty");
        Y->id = alid(static_cast<const C*>(Y->c)->get_allocator());
        nothrow_op = true; has_cost = true; costlimit = 0; noalloc = true; copy_like = true; keep_mode = 2;
        for (size_t i = 0; i < ya.size(); ++i) if (c.size() == ya.size() && &c[i] != ya[i]) fail(T_STAB, "moving a buffer relocated its elements");
        break; }
#else
    case MOVE_ASSIGN: return;
#endif
    case SWAP: case SWAP_FREE: {
        std::vector<const Elem*> ya; for (size_t i = 0; i < Y->m.size(); ++i) ya.push_back(&(*Y->c)[i]);
        if (op.code == SWAP) CALL(c.swap(*Y->c)); else { using std::swap; CALL(swap(c, *Y->c)); }
        expcap = Y->cap; expmin = Y->mincap; exp_ = Y->m;
        Y->m = oldm; Y->cap = oldcap; Y->mincap = oldmin; std::swap(X->id, Y->id);
        nothrow_op = true; has_cost = true; costlimit = 0; noalloc = true; copy_like = true; keep_mode = 1;
        for (size_t i = 0; i < ya.size() && i < c.size(); ++i) if (&c[i] != ya[i]) fail(T_STAB, "swap relocated element %zu", i);
        for (size_t i = 0; i < oldaddr.size() && i < Y->c->size(); ++i) if (&(*Y->c)[i] != oldaddr[i]) fail(T_STAB, "swap relocated element %zu", i);
        break; }
    // ------------------------------------------------------------ construction
    case CTOR_DEF: case CTOR_CAP: case CTOR_N: case CTOR_CAP_N: case CTOR_RANGE: case CTOR_CAP_RANGE: case CTOR_INT: case CTOR_CAP_INT:
    case CTOR_COPY: case CTOR_MOVE: case CTOR_CAP_ITEM: case CTOR_OVER: {
        C* N = 0; int id = 10 + (int)(op.c % 5); bool stateless = ALLOC == A_MINIMAL || ALLOC == A_STD; if (stateless) id = 0;
        size_t nc = op.a % (cap + 5); if (op.a >= 1000 && (op.a >> 20 & 1)) nc %= 48; if (nc > 25000) nc %= 48; size_t mn = SO ? (op.c / 64) % (nc + 1) : 0; size_t k = op.b % (nc + 1);
        int v = nv(); size_t ecap = nc, emin = mn; long eblk = -1; std::vector<int> ev; bool movefrom = false; want_id = op.code == CTOR_COPY || op.code == CTOR_MOVE ? Y->id : id;
        switch (op.code) {
        case CTOR_DEF: ecap = emin = 0; eblk = 0;
            if (op.a & 1) { CALL(N = new C()); id = 0; } else CALL(N = new C(mkal(id)));
            if (hits || D.allocs) fail(T_ALLOC, "constructing an empty zero-capacity buffer requested memory");
            break;
        case CTOR_CAP: eblk = (long)mn; CALL(N = new C(mkcap(nc, mn), mkal(id))); break;
#if COPYABLE && CONT == 0
        case CTOR_N: { MK(item, v); ecap = nc; CALL(N = new C((C::size_type)nc, static_cast<const Elem&>(item), mkal(id))); ev.assign(nc, v); break; }
#endif
#if COPYABLE && CONT == 1
        case CTOR_CAP_ITEM: { MK(item, v); eblk = (long)nc; CALL(N = new C(mkcap(nc, mn), static_cast<const Elem&>(item), mkal(id))); ev.assign(nc, v); break; }
#endif
#if COPYABLE
        case CTOR_CAP_N: { MK(item, v); eblk = (long)std::max(k, mn); CALL(N = new C(mkcap(nc, mn), (C::size_type)k, static_cast<const Elem&>(item), mkal(id))); ev.assign(k, v); break; }
        case CTOR_COPY: ecap = Y->cap; emin = Y->mincap; ev = Y->m; id = Y->id; eblk = (long)ev.size(); CALL(N = new C(static_cast<const C&>(*Y->c))); break;
#if ELEM != E_STR
        case CTOR_INT: ecap = nc; emin = 0; eblk = (long)nc; INT_PAIR(N = new C((I)nc, (I)iv, mkal(id))); ev.assign(nc, v); break;
        case CTOR_CAP_INT: eblk = (long)std::max(k, mn); INT_PAIR(N = new C(mkcap(nc, mn), (I)k, (I)iv, mkal(id))); ev.assign(k, v); break;
#endif
#endif
        case CTOR_RANGE: case CTOR_CAP_RANGE: {
            int cat = cats_assign[op.c % NCATS(cats_assign)];
            int kk = op.code == CTOR_RANGE ? (int)nc : (int)(op.b % (nc + 4));
            int first = counter_v + 1; counter_v += kk + 1;
            if (cat == R_OTHER) { kk = 0; ev = Y->m; }
            Source src(kk, first);
            if (cat != R_OTHER) ev = src.vals;
            if (op.code == CTOR_RANGE) { ecap = ev.size(); emin = 0; RANGE_ASSIGN_SWITCH(cat, CALL(N = new C(F, L, mkal(id)))); }
            else { CapT cp = mkcap(nc, mn); RANGE_ASSIGN_SWITCH(cat, CALL(N = new C(cp, F, L, mkal(id)))); }
            check_source(src, cat);
            ev = tail(ev, ecap); eblk = (long)std::max(ev.size(), emin);
            break; }
#if CXX11
        case CTOR_MOVE: {
            ecap = Y->cap; emin = Y->mincap; ev = Y->m; id = Y->id; movefrom = true;
            std::vector<const Elem*> ya; for (size_t i = 0; i < Y->m.size(); ++i) ya.push_back(&(*Y->c)[i]);
            if (!std::is_nothrow_move_constructible<C>::value || !std::is_nothrow_move_assignable<C>::value || !std::is_nothrow_destructible<C>::value || !noexcept(c.swap(c)) || !noexcept(swap(c, c)))
                fail(T_NOTHROW, "moving, swapping or destroying the container is not declared non-throwing");
            if (op.c & 4) { // relocation inside a standard container
                std::vector<C> v; v.reserve(1);
                CALL(v.push_back(std::move(*Y->c)); v.reserve(v.capacity() + 1); N = new C(std::move(v.back())); v.clear());
            } else CALL(N = new C(std::move(*Y->c)));
            if (threw || hits) fail(T_NOTHROW, "move construction performed throwing operations");
            if (D.allocs + D.mc + D.ma + D.cc + D.ca) fail(T_COST, "move construction touched elements or memory");
            if (Y->c->size() != 0) fail(T_CONTENT, "moved-from buffer is not empty");
            Y->m.clear(); Y->cap = 0; Y->mincap = 0; Y->id = alid(static_cast<const C*>(Y->c)->get_allocator());
            for (size_t i = 0; i < ya.size(); ++i) if (N->size() == ya.size() && &(*N)[i] != ya[i]) fail(T_STAB, "moving a buffer relocated its elements");
            break; }
#endif
        case CTOR_OVER: {
            size_t mx = c.max_size(); if (mx >= (size_t)-1 - 8) return;
            size_t big = mx + 1 + op.a % 4;
            CALL(N = new C(mkcap(big, big), mkal(id)));
            if (threw != 2) fail(T_RET, "constructing with a capacity above max_size() did not raise length_error");
            if (hits) fail(T_RET, "memory was requested before length_error was raised");
            threw = 0; keep_shift(0, n, 0); noalloc = true; copy_like = true;
            finish(); return; }
        default: return;
        }
        if (threw == 1) { // nothing may remain
            newvals.clear(); strong = true; copy_like = true;
            finish(); return;
        }
        if (threw) fail(T_RET, "constructor raised an unexpected exception");
        if (D.cc + D.ca + D.mc + D.ma > 4 * (ev.size() + (size_t)op.b % (nc + 4) + 2) + 4) fail(T_COST, "constructor performed %lu element operations for %zu elements", D.cc + D.ca + D.mc + D.ma, ev.size());
        adopt(N, id);
        exp_ = ev; expcap = ecap; expmin = emin; copy_like = true; exact_blk = SO ? eblk : -1;
        if (movefrom) { keep_mode = 2; } else { keep_end = false; }
        if (movefrom && SO) exact_blk = -1;
        break; }
    case ITLAWS: itlaws(*X, op); keep_shift(0, n, 0); break;
    case ALGO: algo(*X, op); keep_shift(0, n, 0); break;
    case COMPARE: compare_op(op); keep_shift(0, n, 0); break;
    case IT_GET: case IT_COPY: case IT_ASSIGN: case IT_DROP: case IT_CONV: case IT_END: pool_op(op); keep_shift(0, n, 0); break;
    default: return;
    }
    finish();
}

// ------------------------------------------------------------------ views
static void write_view(const Op& op) {
    C& c = *X->c; size_t n = X->m.size(); if (!n) return;
    size_t i = op.a % n; int v = nv(); newvals.push_back(v);
    Elem* e = 0; const C& k = c; (void)k;
    switch (op.c % 10) {
    case 0: e = &c[i]; break;
    case 1: e = &c.at(i); break;
    case 2: i = 0; e = &c.front(); break;
    case 3: i = n - 1; e = &c.back(); break;
    case 4: e = &*(c.begin() + i); break;
    case 5: e = &*(c.rbegin() + (n - 1 - i)); break;
    case 6: i = i % c.array_one().second; e = const_cast<Elem*>(raw_ptr(c.array_one().first)) + i; break;
    case 7: if (!c.array_two().second) { e = &c[i]; break; } { size_t j = i % c.array_two().second; i = c.array_one().second + j; e = const_cast<Elem*>(raw_ptr(c.array_two().first)) + j; } break;
    case 8: e = &*(c.end() - (n - i)); break;
    default: e = &c.begin()[i]; break;
    }
#if TRACKED
    life_need(e, "writing to");
#endif
    set_elem(*e, v);
    exp_[i] = v;
}
static void at_oor(const Op& op) {
    C& c = *X->c; const C& k = c; size_t n = X->m.size();
    size_t bad[4] = { n, n + 1 + op.a % 7, (size_t)-1, (size_t)-1 - op.b % 9 };
    for (int i = 0; i < 4; ++i) for (int kk = 0; kk < 2; ++kk) {
        int got = 0;
        try { if (kk) (void)k.at(bad[i]); else (void)c.at(bad[i]); } catch (const std::out_of_range&) { got = 1; } catch (...) { got = 2; }
        if (got != 1) fail(T_VIEW, "at(%zu) on size %zu did not raise out_of_range", bad[i], n);
    }
    for (size_t i = 0; i < n; ++i) { try { if (val(k.at(i)) != X->m[i] || val(c.at(i)) != X->m[i]) fail(T_VIEW, "at(%zu) designates a wrong element", i); } catch (const std::out_of_range&) { fail(T_VIEW, "at(%zu) raised out_of_range on size %zu", i, n); } }
}

// ------------------------------------------------------------------ iterator laws
template <class I> static void law_pair(C& c, I b, I e, const std::vector<int>& m, size_t i, size_t j, const char* w) {
    size_t n = m.size(); (void)c; (void)e;
    ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i;
    I x = b + (ptrdiff_t)i, y = b + (ptrdiff_t)j;
#define LAW(cond) do { if (!(cond)) fail(T_ITER, "%s iterator law broken at i=%zu j=%zu of size %zu: %s", w, i, j, n, #cond); } while (0)
    LAW(y - x == d); LAW(x - y == -d);
    LAW((x == y) == (i == j)); LAW((x != y) == (i != j));
    LAW((x < y) == (i < j)); LAW((x > y) == (i > j)); LAW((x <= y) == (i <= j)); LAW((x >= y) == (i >= j));
    LAW(x + d == y); LAW(y - d == x); LAW(d + x == y);
    { I z = x; I& r = (z += d); LAW(z == y && &r == &z); z -= d; LAW(z == x); }
    { I z = y; I& r = (z -= d); LAW(z == x && &r == &z); }
    LAW(e - x == (ptrdiff_t)(n - i)); LAW(x - b == (ptrdiff_t)i); LAW(e - (ptrdiff_t)(n - i) == x);
    if (j < n) { LAW(val(*y) == m[j]); LAW(val(x[d]) == m[j]); LAW(&*y == &x[d]); }
    if (i < n) {
        I z = x; I o = z++; LAW(o == x && z == b + (ptrdiff_t)(i + 1)); 
        I q = x; I& r = ++q; LAW(q == z && &r == &q);
        I p = z--; LAW(p == b + (ptrdiff_t)(i + 1)); LAW(z == x); I& r2 = --q; LAW(q == x && &r2 == &q);
        LAW(z - b == (ptrdiff_t)i);
    }
    { I z(x); LAW(z == x); I a; a = x; LAW(a == x); a = y; LAW(a == y); std::swap(a, z); LAW(a == x && z == y); }
}
static void mixed_pair(C& c, const std::vector<int>& m, size_t i, size_t j) {
    size_t n = m.size(); const C& k = c; const char* w = "mixed";
    It x = c.begin() + (ptrdiff_t)i; CIt y = k.begin() + (ptrdiff_t)j; ptrdiff_t d = (ptrdiff_t)j - (ptrdiff_t)i;
    LAW(y - x == d); LAW(x - y == -d); LAW((x == y) == (i == j)); LAW((y == x) == (i == j)); LAW((x != y) == (i != j)); LAW((y != x) == (i != j));
    LAW((x < y) == (i < j)); LAW((y < x) == (j < i)); LAW((x > y) == (i > j)); LAW((y > x) == (j > i)); LAW((x <= y) == (i <= j)); LAW((y <= x) == (j <= i)); LAW((x >= y) == (i >= j)); LAW((y >= x) == (j >= i));
    CIt cv(x); LAW(cv == x); LAW(cv - k.begin() == (ptrdiff_t)i); CIt as; as = x; LAW(as == x);
    if (i < n) { LAW(&*cv == &*x); LAW(val(*cv) == m[i]);
#if TRACKED || ELEM == E_POD
        LAW(x->v == (*x).v && &x->v == &(*x).v); LAW(&cv->v == &(*x).v);
#endif
    }
    C::reverse_iterator rx(x); LAW(rx.base() == x);
    C::const_reverse_iterator crx(y); LAW(crx.base() == y);
}
template <class A, class B> struct SameT { enum { v = 0 }; };
template <class A> struct SameT<A, A> { enum { v = 1 }; };
template <class I, class Ref> static void traits_of(const char* w) {
    typedef std::iterator_traits<I> T;
    if (!SameT<typename T::iterator_category, std::random_access_iterator_tag>::v || !SameT<typename T::value_type, Elem>::v || !SameT<typename T::reference, Ref>::v || !SameT<typename T::difference_type, C::difference_type>::v)
        fail(T_ITER, "the %s iterator does not declare itself a random access iterator over the elements", w);
}
#if ALLOC == A_FANCY && !DEBUGMODE && CONT == 0
static void access_cost(Cont& Z, const Op& op);
#endif
static void static_traits() {
    traits_of<It, Elem&>("mutable"); traits_of<CIt, const Elem&>("constant");
    traits_of<C::reverse_iterator, Elem&>("reverse"); traits_of<C::const_reverse_iterator, const Elem&>("constant reverse");
}
static void itlaws(Cont& Z, const Op& op) {
    C& c = *Z.c; const C& k = c; const std::vector<int>& m = Z.m; size_t n = m.size();
    std::vector<int> r(m.rbegin(), m.rend());
    size_t lim = n <= 7 ? (n + 1) * (n + 1) : 24;
    unsigned s = op.a * 2654435761u + op.b * 40503u + op.c;
    for (size_t q = 0; q < lim; ++q) {
        size_t i, j;
        if (n <= 7) { i = q / (n + 1); j = q % (n + 1); }
        else { s = s * 1664525u + 1013904223u; i = (s >> 8) % (n + 1); s = s * 1664525u + 1013904223u; j = (s >> 8) % (n + 1); }
        law_pair<It>(c, c.begin(), c.end(), m, i, j, "mutable");
        law_pair<CIt>(c, k.begin(), k.end(), m, i, j, "const");
        law_pair<C::reverse_iterator>(c, c.rbegin(), c.rend(), r, i, j, "reverse");
        law_pair<C::const_reverse_iterator>(c, k.rbegin(), k.rend(), r, i, j, "const reverse");
        mixed_pair(c, m, i, j);
    }
#if ALLOC == A_FANCY && !DEBUGMODE && CONT == 0
    access_cost(Z, op);
#endif
    It d1, d2; (void)d1; (void)d2;
    if (!(d1 == d2) || d1 != d2) fail(T_ITER, "default-constructed iterators differ");
    static_traits();
    // default-constructed iterators can be assigned to
    d1 = c.begin(); if (!(d1 == c.begin())) fail(T_ITER, "assignment to a default-constructed iterator");
    size_t cnt = 0; for (It it = c.begin(); it < c.end(); it += 1) { if (val(*it) != m[cnt]) fail(T_ITER, "stepping by one visits %d at %zu", val(*it), cnt); if (++cnt > n) break; }
    if (cnt != n) fail(T_ITER, "stepping by one visits %zu of %zu elements", cnt, n);
    if (n > 1) for (size_t st = 2; st <= 3; ++st) for (size_t i = 0; i + st <= n; i += st) if (val((c.begin() + i)[0]) != m[i] || val(k.begin()[i]) != m[i]) fail(T_ITER, "stride access");
}
#if ALLOC == A_FANCY && !DEBUGMODE && CONT == 0
// iterator arithmetic and element access take a constant number of pointer steps
static void access_cost(Cont& Z, const Op& op) {
    C& c = *Z.c; const C& k = c; size_t n = Z.m.size(); if (!n) return;
    size_t i = op.a % n, j = op.b % (n + 1); unsigned long worst = 0; const char* what = "";
#define AC(e) do { unsigned long t_ = G.n.steps; e; t_ = G.n.steps - t_; if (t_ > worst) { worst = t_; what = #e; } } while (0)
    It x, y; CIt cx, cy; bool b = false; ptrdiff_t d = 0; const Elem* p = 0;
    AC(x = c.begin() + (ptrdiff_t)i); AC(y = c.begin() + (ptrdiff_t)j); AC(cx = k.end() - (ptrdiff_t)(n - i)); AC(cy = y);
    AC(d = y - x); AC(d = cx - cy); AC(b = x < y); AC(b = cx == cy); AC(x += d - (cx - cy)); AC(p = &*cx); AC(p = &cx[0]); AC(++cx); AC(--cx);
    AC(p = &c[i]); AC(p = &k[i]); AC(p = &c.at(i)); AC(p = &k.front()); AC(p = &c.back()); AC(b = k.full()); AC(b = k.empty()); AC(b = k.is_linearized());
    AC(d = (ptrdiff_t)k.size()); AC(d = (ptrdiff_t)k.reserve()); AC(d = (ptrdiff_t)k.array_one().second); AC(d = (ptrdiff_t)k.array_two().second); AC(p = &*c.rbegin());
    (void)b; (void)p; (void)d;
    if (worst > 100) fail(T_COST, "%lu pointer steps in %s on %zu elements", worst, what, n);
}
#endif
struct ByVal { bool operator()(const Elem& a, const Elem& b) const { return val(a) < val(b); } };
static void algo(Cont& Z, const Op& op) {
    C& c = *Z.c; size_t n = Z.m.size(); std::vector<int>& m = exp_;
    switch (op.c % 7) {
    case 0: { size_t i = 0; for (It it = c.begin(); it != c.end() && i < n; ++it, ++i) if (val(*it) != m[i]) fail(T_ITER, "traversal"); break; }
    case 1: std::sort(c.begin(), c.end(), ByVal()); std::sort(m.begin(), m.end()); break;
    case 2: std::reverse(c.begin(), c.end()); std::reverse(m.begin(), m.end()); break;
    case 3: if (n) { size_t p = op.a % n; std::rotate(c.begin(), c.begin() + p, c.end()); std::rotate(m.begin(), m.begin() + p, m.end()); } break;
    case 4: if (n) { size_t p = op.a % n; std::nth_element(c.begin(), c.begin() + p, c.end(), ByVal()); std::vector<int> t(m); std::nth_element(t.begin(), t.begin() + p, t.end());
            if (val(c[p]) != t[p]) fail(T_ITER, "nth_element over the buffer's iterators differs");
            std::vector<int> now; read_content(Z, now); std::vector<int> s1(now), s2(m); std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); if (s1 != s2) fail(T_ITER, "nth_element changed the multiset"); m = now; } break;
    case 5: std::sort(c.rbegin(), c.rend(), ByVal()); std::sort(m.rbegin(), m.rend()); break;
    default: { std::sort(c.begin(), c.end(), ByVal()); std::sort(m.begin(), m.end());
            if (n) { int probe = m[op.a % n]; MK(e, probe); const C& k = c; ptrdiff_t a = std::lower_bound(k.begin(), k.end(), e, ByVal()) - k.begin(); ptrdiff_t b = std::lower_bound(m.begin(), m.end(), probe) - m.begin();
                if (a != b) fail(T_ITER, "lower_bound over the buffer's iterators gives %ld, expected %ld", (long)a, (long)b); } break; }
    }
}

// ------------------------------------------------------------------ comparison
static void one_compare(const C& a, const C& b, const std::vector<int>& x, const std::vector<int>& y) {
#if ELEM == E_STR
    std::vector<std::string> p, q; for (size_t i = 0; i < x.size(); ++i) p.push_back(mkarg(x[i])); for (size_t i = 0; i < y.size(); ++i) q.push_back(mkarg(y[i]));
#else
    const std::vector<int>& p = x; const std::vector<int>& q = y;
#endif
    if ((a == b) != (p == q)) fail(T_CMP, "== gives %d for %s and %s", (int)(a == b), show(x).c_str(), show(y).c_str());
    if ((a != b) != (p != q)) fail(T_CMP, "!= gives %d for %s and %s", (int)(a != b), show(x).c_str(), show(y).c_str());
    if ((a < b) != (p < q)) fail(T_CMP, "< gives %d for %s and %s", (int)(a < b), show(x).c_str(), show(y).c_str());
    if ((a > b) != (p > q)) fail(T_CMP, "> gives %d for %s and %s", (int)(a > b), show(x).c_str(), show(y).c_str());
    if ((a <= b) != (p <= q)) fail(T_CMP, "<= gives %d for %s and %s", (int)(a <= b), show(x).c_str(), show(y).c_str());
    if ((a >= b) != (p >= q)) fail(T_CMP, ">= gives %d for %s and %s", (int)(a >= b), show(x).c_str(), show(y).c_str());
}
#if SCALAR || ELEM == E_POD
// element types whose equality is not identity: a NaN differs from itself, zeros of both signs are equal, a field is ignored
struct KeyOnly { int k, tag; KeyOnly(int a = 0, int t = 0) : k(a), tag(t) {} };
static inline bool operator==(const KeyOnly& a, const KeyOnly& b) { return a.k == b.k; }
static inline bool operator<(const KeyOnly& a, const KeyOnly& b) { return a.k < b.k; }
static double odd_value(unsigned x) { switch (x % 7) { case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::quiet_NaN(); case 3: return 1.5; case 4: return -1.5; case 5: return std::numeric_limits<double>::infinity(); default: return -2; } }
template <class T> static T odd_int(unsigned x) {
    switch (x % 7) { case 0: return std::numeric_limits<T>::min(); case 1: return std::numeric_limits<T>::max(); case 2: return (T)-1; case 3: return (T)256; case 4: return (T)1; case 5: return (T)-300; default: return T(); }
}
template <class T> static bool odd_eq(const std::vector<T>& p, const std::vector<T>& q) { if (p.size() != q.size()) return false; for (size_t i = 0; i < p.size(); ++i) if (!(p[i] == q[i])) return false; return true; }
template <class T> static bool odd_lt(const std::vector<T>& p, const std::vector<T>& q) {
    for (size_t i = 0; i < p.size() && i < q.size(); ++i) { if (p[i] < q[i]) return true; if (q[i] < p[i]) return false; }
    return p.size() < q.size();
}
template <class T> static void odd_compare(const std::vector<T>& p, const std::vector<T>& q, unsigned o1, unsigned o2, const char* w) {
#if CONT == 0
    typedef boost::circular_buffer<T> Z;
#else
    typedef boost::circular_buffer_space_optimized<T> Z;
#endif
    Z a(p.size() + o1 % 3), b(q.size() + o2 % 3);
    for (size_t i = 0; i < o1 % (p.size() + 1); ++i) { a.push_back(T()); a.pop_front(); }
    for (size_t i = 0; i < o2 % (q.size() + 1); ++i) { b.push_back(T()); b.pop_front(); }
    for (size_t i = 0; i < p.size(); ++i) a.push_back(p[i]);
    for (size_t i = 0; i < q.size(); ++i) b.push_back(q[i]);
    const Z* l[3] = { &a, &b, &a }; const Z* r[3] = { &b, &a, &a };
    const std::vector<T>* lm[3] = { &p, &q, &p }; const std::vector<T>* rm[3] = { &q, &p, &p };
    for (int k = 0; k < 3; ++k) {
        bool e = odd_eq(*lm[k], *rm[k]), x = odd_lt(*lm[k], *rm[k]), y = odd_lt(*rm[k], *lm[k]);
        if ((*l[k] == *r[k]) != e || (*l[k] != *r[k]) != !e || (*l[k] < *r[k]) != x || (*l[k] > *r[k]) != y || (*l[k] <= *r[k]) != !y || (*l[k] >= *r[k]) != !x)
            fail(T_CMP, "comparison of buffers of %s (%s) does not follow the elements' own comparison", w, k == 2 ? "a buffer with itself" : "two buffers");
    }
}
template <class T> static void odd_ints(const Op& op, size_t n, const char* w) {
    std::vector<T> p, q; unsigned s = op.b * 2654435761u + op.a * 40503u + op.c * 13u + 5u;
    for (size_t i = 0; i < n % 7; ++i) {
        s = s * 1664525u + 1013904223u; p.push_back(odd_int<T>(s >> 9));
        q.push_back((s >> 20) % 4 ? p.back() : odd_int<T>(s >> 13));
    }
    if ((s >> 8) % 4 == 0) q.push_back(odd_int<T>(s >> 5));
    if ((s >> 11) % 8 == 0 && !p.empty()) p.resize(p.size() - 1);
    odd_compare(p, q, op.a, op.d >> 3, w);
}
static void odd_compares(const Op& op, size_t n) {
    std::vector<double> p, q; std::vector<KeyOnly> u, v; unsigned s = op.a * 2654435761u + op.b * 40503u + op.c * 7u + 1u;
    for (size_t i = 0; i < n % 9; ++i) {
        s = s * 1664525u + 1013904223u; p.push_back(odd_value(s >> 9)); u.push_back(KeyOnly((s >> 9) % 3, (s >> 20) % 4));
        s = s * 1664525u + 1013904223u; bool same = (s >> 9) % 3 != 0;
        q.push_back(same ? p.back() : odd_value(s >> 13)); v.push_back(same ? KeyOnly(u.back().k, (s >> 20) % 4) : KeyOnly((s >> 13) % 3, 0));
        if (same && p.back() == 0.0 && (s >> 16) % 2) q.back() = -q.back();
    }
    if ((s >> 8) % 4 == 0) { q.push_back(1.0); v.push_back(KeyOnly(1, 1)); }
    odd_compare(p, q, op.b, op.d >> 2, "double"); odd_compare(u, v, op.b, op.d >> 2, "a key with a satellite field");
    switch (op.c / 8 % 6) {
    case 0: odd_ints<int>(op, n, "int"); break; case 1: odd_ints<signed char>(op, n, "signed char"); break; case 2: odd_ints<char>(op, n, "char"); break;
    case 3: odd_ints<unsigned long>(op, n, "unsigned long"); break; case 4: odd_ints<unsigned short>(op, n, "unsigned short"); break; default: odd_ints<long>(op, n, "long"); break;
    }
}
#endif
static C* rebuild(const std::vector<int>& v, size_t extra, size_t off, int id, size_t mn) {
    size_t cap = v.size() + extra;
    C* c = new C(mkcap(cap, std::min(mn, cap)), mkal(id));
    if (cap) off %= cap; else off = 0;
#if CXX11
    for (size_t i = 0; i < off; ++i) { MK(e, 1); c->push_back(std::move(e)); }
    while (!c->empty()) c->pop_front();
    for (size_t i = 0; i < v.size(); ++i) { MK(e, v[i]); c->push_back(std::move(e)); }
#else
    for (size_t i = 0; i < off; ++i) { MK(e, 1); c->push_back(e); }
    while (!c->empty()) c->pop_front();
    for (size_t i = 0; i < v.size(); ++i) { MK(e, v[i]); c->push_back(e); }
#endif
    return c;
}
static void compare_op(const Op& op) {
    const C& a = *X->c; const C& b = *Y->c;
    one_compare(a, b, X->m, Y->m); one_compare(b, a, Y->m, X->m); one_compare(a, a, X->m, X->m);
    // a variant of X's content in another layout
    std::vector<int> v = X->m;
    switch (op.c % 6) {
    case 0: break;
    case 1: if (!v.empty()) v.pop_back(); break;
    case 2: v.push_back(norm(3 + (int)(op.b % 50))); break;
    case 3: if (!v.empty()) { int& z = v[op.a % v.size()]; z = norm(z + 1); } break;
    case 4: if (!v.empty()) { int& z = v[op.a % v.size()]; z = z > 0 ? z - 1 : z; } break;
    default: if (!v.empty()) { v.erase(v.begin()); } break;
    }
    C* t = rebuild(v, (op.d >> 2) % 4, op.b, 77, op.b % 5);
    if (alid(mkal(77)) == 0 && X->id == 0) {}
    one_compare(a, *t, X->m, v); one_compare(*t, a, v, X->m);
    delete t;
#if SCALAR || ELEM == E_POD
    odd_compares(op, a.size());
#endif
}

// ------------------------------------------------------------------ pool operations
static void pool_op(const Op& op) {
    int xw = X == &A ? 0 : 1;
    Slot& s = pool[op.a % POOL]; Slot& t = pool[(op.b) % POOL];
    size_t n = X->m.size();
    switch (op.code) {
    case IT_GET: { slot_drop(s); size_t i = op.c % (n + 1);
        if (op.d & 8) s.cit = new CIt(static_cast<const C*>(X->c)->begin() + i); else s.it = new It(X->c->begin() + i);
        s.which = xw; s.kind = i == n ? PK_END : PK_ELEM; s.idx = (long)i; break; }
    case IT_END: slot_drop(s); s.which = xw; s.kind = PK_END; s.idx = 0;
        if (op.c % 5 == 0) { s.it = new It(); s.kind = PK_SINGULAR; } else if (op.d & 8) s.cit = new CIt(static_cast<const C*>(X->c)->end()); else s.it = new It(X->c->end()); break;
    case IT_COPY: if (&s == &t || t.kind == PK_NONE) return;
        { It* i = t.it ? new It(*t.it) : 0; CIt* ci = t.cit ? new CIt(*t.cit) : 0; slot_drop(s); s = t; s.it = i; s.cit = ci; } break;
    case IT_ASSIGN: if (t.kind == PK_NONE || s.kind == PK_NONE) return;
        if (s.it && t.it) { *s.it = *t.it; } else if (s.cit && t.cit) { *s.cit = *t.cit; } else if (s.cit && t.it) { *s.cit = *t.it; } else return;
        s.kind = t.kind; s.which = t.which; s.idx = t.idx; break;
    case IT_CONV: if (!t.it || &s == &t) return;
        { CIt* ci = new CIt(*t.it); slot_drop(s); s.cit = ci; s.kind = t.kind; s.which = t.which; s.idx = t.idx; } break;
    default: slot_drop(s); break;
    }
}

unsigned exec_opmask(unsigned char* ok) {
    for (int i = 1; i < OP_COUNT; ++i) ok[i] = 1;
    ok[PUSH_BACK_MANY] = ok[PUSH_FRONT_MANY] = 0;
#if ELEM == E_TMONLY
    ok[SET_CAP] = ok[RSET_CAP] = ok[SET_CAP_OVER] = ok[RSET_CAP_OVER] = 0; // does not compile for move-only elements whose moves may throw
#endif
#if !CXX11
    ok[PUSH_BACK_R] = ok[PUSH_FRONT_R] = ok[INS_R] = ok[RINS_R] = ok[MOVE_ASSIGN] = ok[CTOR_MOVE] = 0;
#endif
#if !COPYABLE
    ok[PUSH_BACK_C] = ok[PUSH_FRONT_C] = ok[PUSH_BACK_ALIAS] = ok[PUSH_FRONT_ALIAS] = ok[INS_C] = ok[INS_N] = ok[INS_INT] = ok[RINS_C] = ok[RINS_N] = ok[RINS_INT] = 0;
    ok[RESIZE] = ok[RESIZE_D] = ok[RRESIZE] = ok[RRESIZE_D] = ok[RESIZE_OVER] = ok[ASSIGN_N] = ok[ASSIGN_CAP_N] = ok[ASSIGN_INT] = ok[ASSIGN_CAP_INT] = ok[COPY_ASSIGN] = 0;
    ok[CTOR_N] = ok[CTOR_CAP_N] = ok[CTOR_INT] = ok[CTOR_CAP_INT] = ok[CTOR_COPY] = ok[CTOR_CAP_ITEM] = 0;
#endif
#if ELEM == E_STR
    ok[INS_INT] = ok[RINS_INT] = ok[ASSIGN_INT] = ok[ASSIGN_CAP_INT] = ok[CTOR_INT] = ok[CTOR_CAP_INT] = 0;
#endif
#if CONT == 1
    ok[ERASE_BEGIN] = ok[ERASE_END] = ok[CTOR_N] = ok[RESIZE_OVER] = 0;
    ok[PUSH_BACK_ALIAS] = ok[PUSH_FRONT_ALIAS] = 0; // an own element may be relocated by growth: not claimed
#else
    ok[CTOR_CAP_ITEM] = 0;
#endif
    return 0;
}

static void setup(Cont& Z, size_t cap, size_t mn, size_t off, size_t size, int id) {
    Z.id = (ALLOC == A_MINIMAL || ALLOC == A_STD) ? 0 : id;
    Z.cap = cap; Z.mincap = SO ? std::min(mn, cap) : 0; Z.m.clear();
    Z.c = new C(mkcap(cap, Z.mincap), mkal(Z.id));
    if (size > cap) size = cap;
    for (size_t i = 0; i < off && cap; ++i) {
        MK(e, 1);
#if CXX11
        Z.c->push_back(std::move(e));
#else
        Z.c->push_back(e);
#endif
        Z.c->pop_front();
    }
    for (size_t i = 0; i < size; ++i) {
        int v = nv(); MK(e, v);
#if CXX11
        Z.c->push_back(std::move(e));
#else
        Z.c->push_back(e);
#endif
        Z.m.push_back(v);
    }
}

void exec_case(const Case& cs) {
    g_live.clear(); g_hooked.clear(); g_blocks.clear();
    G.active = 0; G.armed = 0; counter_v = 10; fill_ok = true; had_throw = false;
    memset((void*)pool, 0, sizeof pool);
    setup(A, cs.init[0], cs.init[1], cs.init[2], cs.init[3], 1);
    setup(B, cs.init[4], cs.init[4] / 2, cs.init[5], cs.init[6], 2);
    g_res->op_index = -1; g_res->op_code = 0;
    verify_all(false);
    for (unsigned round = 0; round <= cs.init[8]; ++round)
        for (unsigned i = 0; i < cs.nops; ++i) step(cs.ops[i], (int)i);
    unsigned order = cs.init[7];
    g_res->op_index = (int)cs.nops;
    if (order & 1) for (int i = 0; i < POOL; ++i) slot_drop(pool[i]);
    begin_call(0);
    if (order & 2) { delete B.c; delete A.c; } else { delete A.c; delete B.c; }
    end_call();
    if (hits) fail(T_NOTHROW, "destruction performed operations that may throw");
#if ALLOC == A_FANCY && !DEBUGMODE && SCALAR
    if (D.steps > 200) fail(T_COST, "destroying two scalar buffers took %lu pointer steps", D.steps);
#endif
    for (int i = 0; i < POOL; ++i) {
#if DEBUGMODE
        if (pool[i].kind > PK_SINGULAR && pool[i].kind != PK_UNKNOWN && (pool[i].it ? pool[i].it->is_valid((pool[i].which ? B : A).c) : pool[i].cit->is_valid((pool[i].which ? B : A).c)))
            fail(T_DBGVALID, "an iterator is still reported valid after its buffer was destroyed");
#endif
        slot_drop(pool[i]);
    }
#if TRACKED
    if (g_live.cnt) fail(T_LIFE, "%zu element objects survive the buffers", g_live.cnt);
#endif
#if ATRACK
    if (!g_blocks.empty()) fail(T_ALLOC, "%zu blocks are never returned to the allocator", g_blocks.size());
#endif
}
