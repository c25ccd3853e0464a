// Element types, allocators, source iterators and the bookkeeping they report to (C++98..C++20).
#ifndef CBV_ELEM_H
#define CBV_ELEM_H
#include "core.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <new>
#include <string>
#include <vector>
#include <iterator>

#define E_COPY 0
#define E_NMOVE 1
#define E_TMOVE 2
#define E_MONLY 3
#define E_INT 4
#define E_UCHAR 5
#define E_BIG 6
#define E_STR 7
#define E_POD 8
#define E_TMONLY 9
#define E_TMNA 11   // throwing move construction, nothrow move assignment, copyable
#define E_NMTA 10   // nothrow move construction, throwing move assignment, copyable
#define E_TASG 12   // trivial copy assignment, tracked copy construction and destruction
#define E_LONG 13
#define A_STATEFUL 0
#define A_MINIMAL 1
#define A_FANCY 2
#define A_STD 3

#if __cplusplus >= 201103L
#define CXX11 1
#else
#define CXX11 0
#endif

#define TRACKED (ELEM != E_INT && ELEM != E_LONG && ELEM != E_UCHAR && ELEM != E_STR && ELEM != E_POD)
#define SCALAR (ELEM == E_INT || ELEM == E_UCHAR || ELEM == E_LONG)
#define HOOKED (!SCALAR) // creation and destruction through the allocator is followed
#define COPYABLE (ELEM != E_MONLY && ELEM != E_TMONLY)
#define MOVABLE_TRACKED (TRACKED && ELEM != E_COPY && ELEM != E_TASG)
#define ATRACK (ALLOC != A_STD)

enum { MOVEDV = -77, DEADV = -99, DEFV = 500000 };

struct Injected { int at; explicit Injected(int a) : at(a) {} };
struct InjectedStd : std::exception, Injected { explicit InjectedStd(int a) : Injected(a) {} };
struct InjectedAlloc : std::bad_alloc, Injected { explicit InjectedAlloc(int a) : Injected(a) {} };

struct Counters { unsigned long cc, mc, ca, ma, d, def, conv, allocs, hookc, hookd, steps; };
struct Glob {
    Counters n;
    int armed;          // 0: off, else throw at this hit
    int hits;
    int fired;          // the hit at which it was thrown
    int kind;           // dynamic type of the exception
    int active;         // hits are counted only inside a library call
    int want_id;        // the allocator memory may be taken from during the call (-1: any)
};
static Glob G;

static inline void fault_point() {
    if (!G.active) return;
    ++G.hits;
    if (G.armed && G.hits == G.armed) {
        G.fired = G.hits;
        switch (G.kind) { case 0: throw Injected(G.hits); case 1: throw InjectedStd(G.hits); default: throw InjectedAlloc(G.hits); }
    }
}

// ------------------------------------------------------------------ address set
struct AddrSet {
    const void** tab; size_t cap, cnt;
    AddrSet() : tab(0), cap(0), cnt(0) { grow(1024); }
    static size_t h(const void* p) { size_t x = (size_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; return x; }
    void grow(size_t c) {
        const void** o = tab; size_t oc = cap;
        tab = (const void**)calloc(c, sizeof(void*)); cap = c; cnt = 0;
        for (size_t i = 0; i < oc; ++i) if (o[i]) add(o[i]);
        free(o);
    }
    bool has(const void* p) const { for (size_t i = h(p) & (cap - 1);; i = (i + 1) & (cap - 1)) { if (!tab[i]) return false; if (tab[i] == p) return true; } }
    bool add(const void* p) {
        if (cnt * 2 + 2 > cap) grow(cap * 2);
        for (size_t i = h(p) & (cap - 1);; i = (i + 1) & (cap - 1)) { if (!tab[i]) { tab[i] = p; ++cnt; return true; } if (tab[i] == p) return false; }
    }
    bool del(const void* p) {
        size_t i = h(p) & (cap - 1);
        for (;; i = (i + 1) & (cap - 1)) { if (!tab[i]) return false; if (tab[i] == p) break; }
        --cnt;
        size_t j = i;
        for (;;) {
            tab[i] = 0;
            for (;;) { j = (j + 1) & (cap - 1); if (!tab[j]) return true; size_t k = h(tab[j]) & (cap - 1);
                if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue; break; }
            tab[i] = tab[j]; i = j;
        }
    }
    void clear() { if (cnt) { memset((void*)tab, 0, cap * sizeof(void*)); cnt = 0; } }
};
static AddrSet g_live;   // live tracked element objects
static AddrSet g_hooked; // objects constructed through the allocator's construct()

static inline void life_add(const void* p, const char* how) { if (!g_live.add(p)) fail(T_LIFE, "%s over a live element object at %p", how, p); }
static inline void life_need(const void* p, const char* how) { if (!g_live.has(p)) fail(T_LIFE, "%s an address that holds no element object (%p)", how, p); }
static inline void life_del(const void* p) { if (!g_live.del(p)) fail(T_LIFE, "destroying an address that holds no element object (%p)", p); }

// ------------------------------------------------------------------ element types
struct TrkData { int v; int moved; };

#define TRK_COMMON(NAME) \
    NAME() : v(DEFV), moved(0) { fault_point(); ++G.n.def; life_add(this, "default construction"); } \
    NAME(int x) : v(x), moved(0) { fault_point(); ++G.n.conv; life_add(this, "construction"); } \
    ~NAME() { life_del(this); ++G.n.d; v = DEADV; }
#define TRK_COPY(NAME) \
    NAME(const NAME& o) : v(0), moved(0) { life_need(&o, "copying from"); fault_point(); ++G.n.cc; v = o.v; moved = o.moved; life_add(this, "copy construction"); } \
    NAME& operator=(const NAME& o) { life_need(this, "copy assigning to"); life_need(&o, "copy assigning from"); fault_point(); ++G.n.ca; v = o.v; moved = o.moved; return *this; }
#define TRK_MOVEC(NAME, NOEX, FP) \
    NAME(NAME&& o) NOEX : v(0), moved(0) { life_need(&o, "moving from"); FP; ++G.n.mc; v = o.v; moved = o.moved; o.v = MOVEDV; o.moved = 1; life_add(this, "move construction"); }
#define TRK_MOVEA(NAME, NOEX, FP) \
    NAME& operator=(NAME&& o) NOEX { life_need(this, "move assigning to"); life_need(&o, "move assigning from"); FP; ++G.n.ma; if (this != &o) { v = o.v; moved = o.moved; o.v = MOVEDV; o.moved = 1; } return *this; }

struct EInt3 { int x; };
#if ELEM == E_COPY
struct Elem { int v; int moved; TRK_COMMON(Elem) TRK_COPY(Elem) };
#elif ELEM == E_TASG
struct Elem { int v; int moved; TRK_COMMON(Elem)
    Elem(const Elem& o) : v(0), moved(0) { life_need(&o, "copying from"); fault_point(); ++G.n.cc; v = o.v; moved = o.moved; life_add(this, "copy construction"); } };
#elif ELEM == E_NMOVE
struct Elem { int v; int moved; TRK_COMMON(Elem) TRK_COPY(Elem) TRK_MOVEC(Elem, noexcept, (void)0) TRK_MOVEA(Elem, noexcept, (void)0) };
#elif ELEM == E_TMOVE
struct Elem { int v; int moved; TRK_COMMON(Elem) TRK_COPY(Elem) TRK_MOVEC(Elem, , fault_point()) TRK_MOVEA(Elem, , fault_point()) };
#elif ELEM == E_NMTA
struct Elem { int v; int moved; TRK_COMMON(Elem) TRK_COPY(Elem) TRK_MOVEC(Elem, noexcept, (void)0) TRK_MOVEA(Elem, , fault_point()) };
#elif ELEM == E_TMNA
struct Elem { int v; int moved; TRK_COMMON(Elem) TRK_COPY(Elem) TRK_MOVEC(Elem, , fault_point()) TRK_MOVEA(Elem, noexcept, (void)0) };
#elif ELEM == E_MONLY
struct Elem { int v; int moved; TRK_COMMON(Elem) TRK_MOVEC(Elem, noexcept, (void)0) TRK_MOVEA(Elem, noexcept, (void)0)
    Elem(const Elem&) = delete; Elem& operator=(const Elem&) = delete; };
#elif ELEM == E_TMONLY
struct Elem { int v; int moved; TRK_COMMON(Elem) TRK_MOVEC(Elem, , fault_point()) TRK_MOVEA(Elem, , fault_point())
    Elem(const Elem&) = delete; Elem& operator=(const Elem&) = delete; };
#elif ELEM == E_BIG
struct alignas(64) Elem { int v; int moved; long pad[20]; TRK_COMMON(Elem) TRK_COPY(Elem) TRK_MOVEC(Elem, noexcept, (void)0) TRK_MOVEA(Elem, noexcept, (void)0) };
#elif ELEM == E_INT
typedef int Elem;
#elif ELEM == E_LONG
typedef long Elem; // values use all 64 bits
#elif ELEM == E_UCHAR
typedef unsigned char Elem;
#elif ELEM == E_STR
typedef std::string Elem;
#elif ELEM == E_POD
struct Elem { int v; int w; Elem() : v(DEFV), w(~DEFV) {} Elem(int x) : v(x), w(~x) {} };
#endif

#if ELEM == E_UCHAR
static inline int norm(int v) { return v & 0xFF; }
#else
static inline int norm(int v) { return v; }
#endif

#if TRACKED
static inline int val(const Elem& e) { if (!g_live.has(&e)) fail(T_EXPOSE, "the buffer exposes a slot that holds no element object (%p)", (const void*)&e); return e.moved ? MOVEDV : e.v; }
static inline int mkarg(int v) { return v; }
static inline void set_elem(Elem& e, int v) { e.v = v; e.moved = 0; }
enum { DEFAULT_V = DEFV };
#elif ELEM == E_STR
static inline std::string mkarg(int v) { char b[64]; snprintf(b, sizeof b, "a string long enough to be allocated %d", v); return v == 0 ? std::string() : std::string(b); }
static inline int val(const Elem& e) { if (e.empty()) return 0; if (e.size() < 38) return MOVEDV; return atoi(e.c_str() + 37); }
static inline void set_elem(Elem& e, int v) { e = mkarg(v); }
enum { DEFAULT_V = 0 };
#elif ELEM == E_POD
static inline int val(const Elem& e) { return e.w == ~e.v ? e.v : -1234567; }
static inline int mkarg(int v) { return v; }
static inline void set_elem(Elem& e, int v) { e = Elem(v); }
enum { DEFAULT_V = DEFV };
#elif ELEM == E_LONG
static inline Elem mkarg(int v) { return v ? (Elem)(((unsigned long)(unsigned)v << 32) | (unsigned)~v) : 0; }
static inline int val(const Elem& e) { int v = (int)(e >> 32); return e == mkarg(v) ? v : -1234567; }
static inline void set_elem(Elem& e, int v) { e = mkarg(v); }
enum { DEFAULT_V = 0 };
#else
static inline int val(const Elem& e) { return (int)e; }
static inline Elem mkarg(int v) { return (Elem)v; }
static inline void set_elem(Elem& e, int v) { e = (Elem)v; }
enum { DEFAULT_V = 0 };
#endif
#if TRACKED || ELEM == E_POD
static inline bool operator==(const Elem& a, const Elem& b) { return val(a) == val(b); }
static inline bool operator<(const Elem& a, const Elem& b) { return val(a) < val(b); }
#endif

// ------------------------------------------------------------------ memory blocks
struct Block { char* base; char* p; size_t n, sz; int id; };
static std::vector<Block> g_blocks;
#if defined(__SANITIZE_ADDRESS__)
#define REDZONE 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define REDZONE 0
#endif
#endif
#ifndef REDZONE
#define REDZONE 64
#endif
static void* mem_alloc(size_t n, size_t sz, size_t align, int id) {
    fault_point();
    ++G.n.allocs;
    if (G.active && G.want_id >= 0 && id != G.want_id) fail(T_ALLOC, "memory was taken from allocator #%d instead of #%d, the one in use", id, G.want_id);
    if (n == 0) fail(T_ALLOC, "allocation of zero elements requested");
    if (n > (size_t)-1 / 4 / sz) throw std::bad_alloc();
    if (n * sz > (size_t)1 << 33) fail(T_ALLOC, "absurd allocation of %zu elements", n);
    size_t a = align < 16 ? 16 : align;
    size_t rz = REDZONE ? (REDZONE + a - 1) / a * a : 0;
    void* raw = 0;
    if (posix_memalign(&raw, a, n * sz + 2 * rz)) abort();
    Block b; b.base = (char*)raw; b.p = b.base + rz; b.n = n; b.sz = sz; b.id = id;
    memset(b.base, 0xA5, rz); memset(b.p, 0xEE, n * sz); memset(b.p + n * sz, 0xA5, rz);
    g_blocks.push_back(b);
    return b.p;
}
static void check_redzone(const Block& b) {
#if REDZONE
    for (char* q = b.base; q < b.p; ++q) if ((unsigned char)*q != 0xA5) fail(T_ALLOC, "write before the allocated block");
    char* e = b.p + b.n * b.sz;
    for (char* q = e; q < e + (b.p - b.base); ++q) if ((unsigned char)*q != 0xA5) fail(T_ALLOC, "write past the allocated block");
#else
    (void)b;
#endif
}
static void mem_free(void* p, size_t n, size_t sz, int id) {
    for (size_t i = 0; i < g_blocks.size(); ++i) if (g_blocks[i].p == (char*)p) {
        Block b = g_blocks[i];
        check_redzone(b);
        if (b.n != n || b.sz != sz) fail(T_ALLOC, "block of %zu elements deallocated as %zu elements", b.n, n);
        if (b.id != id) fail(T_ALLOC, "block of allocator #%d deallocated through allocator #%d", b.id, id);
        g_blocks[i] = g_blocks.back(); g_blocks.pop_back();
#if TRACKED
        for (size_t k = 0; k < b.n && b.sz == sizeof(Elem); ++k) if (g_live.has(b.p + k * b.sz)) fail(T_LIFE, "storage released while it still holds a live element object (slot %zu)", k);
#endif
        memset(b.p, 0xDD, b.n * b.sz);
        free(b.base);
        return;
    }
    fail(T_ALLOC, "deallocation of a pointer that is not a live block");
}
static const Block* block_of(const void* p) {
    for (size_t i = 0; i < g_blocks.size(); ++i) if ((const char*)p >= g_blocks[i].p && (const char*)p <= g_blocks[i].p + g_blocks[i].n * g_blocks[i].sz) return &g_blocks[i];
    return 0;
}
#if CXX11
#define ALIGN_OF(T) alignof(T)
#else
#define ALIGN_OF(T) __alignof__(T)
#endif

static inline void hook_add(const void* p, size_t sz, int id) {
    ++G.n.hookc;
    const Block* b = block_of(p);
    if (!b || (const char*)p + sz > b->p + b->n * b->sz) fail(T_ALLOC, "construct() called for an address outside every allocated block");
    if (b->id != id) fail(T_ALLOC, "construct() of allocator #%d called for memory of allocator #%d", id, b->id);
}
static inline void hook_del(const void* p, size_t sz, int id) {
    ++G.n.hookd;
    const Block* b = block_of(p);
    if (!b || (const char*)p + sz > b->p + b->n * b->sz) fail(T_ALLOC, "destroy() called for an address outside every allocated block");
    if (b->id != id) fail(T_ALLOC, "destroy() of allocator #%d called for memory of allocator #%d", id, b->id);
}
template <class U> struct IsElem { enum { value = 0 }; };
template <> struct IsElem<Elem> { enum { value = 1 }; };

#if ALLOC == A_STATEFUL
enum { ALLOC_MAX = 100000 };
template <class T> struct TAlloc {
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference;
    typedef size_t size_type; typedef ptrdiff_t difference_type;
    template <class U> struct rebind { typedef TAlloc<U> other; };
    int id;
    TAlloc() : id(0) {}
    explicit TAlloc(int i) : id(i) {}
    TAlloc(const TAlloc& o) : id(o.id) {}
    template <class U> TAlloc(const TAlloc<U>& o) : id(o.id) {}
    TAlloc& operator=(const TAlloc& o) { id = o.id; return *this; }
    ~TAlloc() {}
    T* allocate(size_t n) { return (T*)mem_alloc(n, sizeof(T), ALIGN_OF(T), id); }
    void deallocate(T* p, size_t n) { mem_free((void*)p, n, sizeof(T), id); }
    size_t max_size() const { return ALLOC_MAX; }
#if CXX11
    template <class U, class... A> void construct(U* p, A&&... a) {
        hook_add(p, sizeof(U), id);
        ::new ((void*)p) U(std::forward<A>(a)...);
        if (IsElem<U>::value && HOOKED) g_hooked.add(p);
    }
    template <class U> void destroy(U* p) {
        hook_del(p, sizeof(U), id);
        if (IsElem<U>::value && HOOKED && !g_hooked.del(p)) fail(T_ALLOC, "allocator destroy() of an element not created by its construct()");
        p->~U();
    }
#else
    void construct(T* p, const T& v) {
        hook_add(p, sizeof(T), id);
        ::new ((void*)p) T(v);
        if (IsElem<T>::value && HOOKED) g_hooked.add(p);
    }
    void destroy(T* p) {
        hook_del(p, sizeof(T), id);
        if (IsElem<T>::value && HOOKED && !g_hooked.del(p)) fail(T_ALLOC, "allocator destroy() of an element not created by its construct()");
        p->~T();
    }
#endif
};
template <class T, class U> bool operator==(const TAlloc<T>& a, const TAlloc<U>& b) { return a.id == b.id; }
template <class T, class U> bool operator!=(const TAlloc<T>& a, const TAlloc<U>& b) { return a.id != b.id; }
typedef TAlloc<Elem> Al;
static inline Al mkal(int id) { return Al(id); }
static inline int alid(const Al& a) { return a.id; }
#elif ALLOC == A_MINIMAL
template <class T> struct TAlloc {
    typedef T value_type;
    TAlloc() = default;
    template <class U> TAlloc(const TAlloc<U>&) {}
    T* allocate(size_t n) { return (T*)mem_alloc(n, sizeof(T), ALIGN_OF(T), 0); }
    void deallocate(T* p, size_t n) { mem_free((void*)p, n, sizeof(T), 0); }
};
template <class T, class U> bool operator==(const TAlloc<T>&, const TAlloc<U>&) { return true; }
template <class T, class U> bool operator!=(const TAlloc<T>&, const TAlloc<U>&) { return false; }
typedef TAlloc<Elem> Al;
static inline Al mkal(int) { return Al(); }
static inline int alid(const Al&) { return 0; }
#elif ALLOC == A_FANCY
#include "fancy.h"
template <class T> struct TAlloc {
    typedef T value_type; typedef FPtr<T> pointer; typedef FPtr<const T> const_pointer;
    typedef size_t size_type; typedef ptrdiff_t difference_type;
    template <class U> struct rebind { typedef TAlloc<U> other; };
    int id;
    TAlloc() : id(0) {}
    explicit TAlloc(int i) : id(i) {}
    TAlloc(const TAlloc& o) : id(o.id) {}
    template <class U> TAlloc(const TAlloc<U>& o) : id(o.id) {}
    TAlloc& operator=(const TAlloc& o) { id = o.id; return *this; }
    pointer allocate(size_t n) { return FPtr<T>((T*)mem_alloc(n, sizeof(T), ALIGN_OF(T), id)); }
    void deallocate(pointer p, size_t n) { mem_free((void*)p.raw(), n, sizeof(T), id); }
};
template <class T, class U> bool operator==(const TAlloc<T>& a, const TAlloc<U>& b) { return a.id == b.id; }
template <class T, class U> bool operator!=(const TAlloc<T>& a, const TAlloc<U>& b) { return a.id != b.id; }
typedef TAlloc<Elem> Al;
static inline Al mkal(int id) { return Al(id); }
static inline int alid(const Al& a) { return a.id; }
#else
typedef std::allocator<Elem> Al;
static inline Al mkal(int) { return Al(); }
static inline int alid(const Al&) { return 0; }
#endif

// ------------------------------------------------------------------ source ranges
struct Source {
    Elem* data; int n; int pos; bool own; std::vector<int> vals; std::vector<unsigned char> reads; // own: iterators have a derived category
    Source(int n_, int first) : data(0), n(n_), pos(0), own(first & 1) {
        if (n) { void* raw = 0; if (posix_memalign(&raw, 64, n * sizeof(Elem))) abort(); data = (Elem*)raw; }
        for (int i = 0; i < n; ++i) { vals.push_back(norm(first + i)); ::new ((void*)(data + i)) Elem(mkarg(norm(first + i))); reads.push_back(0); }
    }
    ~Source() { for (int i = 0; i < n; ++i) data[i].~Elem(); free((void*)data); }
private:
    Source(const Source&); Source& operator=(const Source&);
};
static inline void src_read(Source* s, int at, bool single) {
    if (!s) fail(T_RANGE, "dereferencing a singular source iterator");
    if (at < 0 || at >= s->n) fail(T_RANGE, "source iterator dereferenced at position %d of %d", at, s->n);
    if (single) {
        if (at != s->pos && at != s->pos - 1) fail(T_RANGE, "single-pass source read out of order (position %d, stream at %d)", at, s->pos);
        if (s->reads[at]++) fail(T_RANGE, "element %d of a single-pass source read more than once", at);
    }
    fault_point();
}
// single-pass input iterator; Ref is const Elem& or Elem&&
struct SinglePassTag : std::input_iterator_tag {}; // a category of one's own, as those of Boost.Iterator
struct RandomTag : std::random_access_iterator_tag {};
template <class Ref, class Cat = std::input_iterator_tag> struct InIt {
    typedef Cat iterator_category; typedef Elem value_type; typedef ptrdiff_t difference_type;
    typedef Elem* pointer; typedef Ref reference;
    struct Proxy { Source* s; int at; Ref operator*() const { src_read(s, at, true); return static_cast<Ref>(s->data[at]); } };
    Source* s; int at;
    InIt() : s(0), at(-1) {}
    InIt(Source* s_, int a) : s(s_), at(a) {}
    Ref operator*() const { if (at != s->pos) fail(T_RANGE, "stale copy of a single-pass iterator dereferenced"); src_read(s, at, true); return static_cast<Ref>(s->data[at]); }
    void step() { if (!s || at >= s->n) fail(T_RANGE, "source iterator incremented past its end");
        if (at != s->pos) fail(T_RANGE, "stale copy of a single-pass iterator incremented"); fault_point(); ++at; s->pos = at; }
    InIt& operator++() { step(); return *this; }
    Proxy operator++(int) { Proxy p; p.s = s; p.at = at; step(); return p; }
    friend bool operator==(const InIt& a, const InIt& b) { return (a.at >= a.s->n) == (b.at >= b.s->n); }
    friend bool operator!=(const InIt& a, const InIt& b) { return !(a == b); }
};
template <class Cat> struct MonIt {
    typedef Cat iterator_category; typedef Elem value_type; typedef ptrdiff_t difference_type;
    typedef const Elem* pointer; typedef const Elem& reference;
    Source* s; int at;
    MonIt() : s(0), at(0) {}
    MonIt(Source* s_, int a) : s(s_), at(a) {}
    void chk() const { if (!s || at < 0 || at > s->n) fail(T_RANGE, "source iterator moved outside its range"); }
    reference operator*() const { src_read(s, at, false); return s->data[at]; }
    pointer operator->() const { src_read(s, at, false); return s->data + at; }
    MonIt& operator++() { ++at; chk(); fault_point(); return *this; }
    MonIt operator++(int) { MonIt t(*this); ++*this; return t; }
    MonIt& operator--() { --at; chk(); return *this; }
    MonIt operator--(int) { MonIt t(*this); --*this; return t; }
    MonIt& operator+=(ptrdiff_t k) { at += (int)k; chk(); return *this; }
    MonIt& operator-=(ptrdiff_t k) { at -= (int)k; chk(); return *this; }
    MonIt operator+(ptrdiff_t k) const { MonIt t(*this); t += k; return t; }
    MonIt operator-(ptrdiff_t k) const { MonIt t(*this); t -= k; return t; }
    friend MonIt operator+(ptrdiff_t k, const MonIt& i) { return i + k; }
    friend ptrdiff_t operator-(const MonIt& a, const MonIt& b) { return a.at - b.at; }
    reference operator[](ptrdiff_t k) const { return *(*this + k); }
    friend bool operator==(const MonIt& a, const MonIt& b) { return a.at == b.at; }
    friend bool operator!=(const MonIt& a, const MonIt& b) { return a.at != b.at; }
    friend bool operator<(const MonIt& a, const MonIt& b) { return a.at < b.at; }
    friend bool operator>(const MonIt& a, const MonIt& b) { return a.at > b.at; }
    friend bool operator<=(const MonIt& a, const MonIt& b) { return a.at <= b.at; }
    friend bool operator>=(const MonIt& a, const MonIt& b) { return a.at >= b.at; }
};
#endif
