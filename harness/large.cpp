// C24: sizes and counts far beyond small values. Capacities around the 8-, 16-, 32-bit limits (sparse storage), counts up to the
// largest representable value, length errors exactly above the allocator's limit. Checked against a sequence model.
#include <boost/circular_buffer.hpp>
#include <deque>
#include <iterator>
#include <new>
#include <stdexcept>
#include <type_traits>
#include "mini.h"
#define E_INT 1
#define E_UCHAR 2
#define E_LONG 3
#if ELEMNAME == E_UCHAR
typedef unsigned char T;
#elif ELEMNAME == E_LONG
struct T { long long v; T(long long x = 0) : v(x) {} T(const T& o) : v(o.v) {} T& operator=(const T& o) { v = o.v; return *this; } bool operator==(const T& o) const { return v == o.v; } bool operator<(const T& o) const { return v < o.v; } };
#else
typedef int T;
#endif
typedef unsigned long long u64;
static T mk(u64 v) { v ^= v >> 31; v *= 0x9E3779B97F4A7C15ull; v ^= v >> 29; v *= 0xBF58476D1CE4E5B9ull; v ^= v >> 32; return T((long long)(v & 0x7fff)); } // every bit of v counts: an index that is off by 2^32 gives another value
// ---- allocator: a settable max_size, counts requests, large blocks are sparse
static u64 a_limit = ~0ull; static u64 a_requests, a_over; static long a_live; static bool a_refused;
template <class U> struct LA {
    typedef U value_type; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    LA() {} template <class V> LA(const LA<V>&) {}
    std::size_t max_size() const { u64 m = (u64)PTRDIFF_MAX / sizeof(U); return a_limit < m ? a_limit : m; }
    U* allocate(std::size_t n) {
        ++a_requests; if (n > max_size()) ++a_over;
        if (n > (1ull << 44) / sizeof(U)) { a_refused = true; throw std::bad_alloc(); }
        std::size_t b = n * sizeof(U); ++a_live;
        if (b > (1u << 22)) { void* p = mmap(0, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { --a_live; a_refused = true; throw std::bad_alloc(); } return (U*)p; }
        return (U*)::operator new(b);
    }
    void deallocate(U* p, std::size_t n) { --a_live; std::size_t b = n * sizeof(U); if (b > (1u << 22)) munmap(p, b); else ::operator delete(p); }
    template <class V> void construct(V* p) { ::new ((void*)p) V(); }
    template <class V, class A> void construct(V* p, const A& a) { cons(p, a, 0); }
    template <class V> static void cons(V* p, const V& a, int) { if (std::is_trivial<V>::value) { if (memcmp((const void*)p, (const void*)&a, sizeof(V)) != 0) ::new ((void*)p) V(a); } else ::new ((void*)p) V(a); } // keeps zero pages sparse
    template <class V, class A> static void cons(V* p, const A& a, long) { ::new ((void*)p) V(a); }
};
template <class A, class B> bool operator==(const LA<A>&, const LA<B>&) { return true; }
template <class A, class B> bool operator!=(const LA<A>&, const LA<B>&) { return false; }
#if CONT
typedef boost::circular_buffer_space_optimized<T, LA<T> > C;
#else
typedef boost::circular_buffer<T, LA<T> > C;
#endif
// a lazily generated random access sequence of any length
struct Gen {
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
    long long i; u64 salt;
    Gen(long long x = 0, u64 s = 0) : i(x), salt(s) {}
    T operator*() const { return mk(salt + (u64)i); } T operator[](std::ptrdiff_t d) const { return mk(salt + (u64)(i + d)); }
    Gen& operator++() { ++i; return *this; } Gen operator++(int) { Gen t = *this; ++i; return t; } Gen& operator--() { --i; return *this; } Gen operator--(int) { Gen t = *this; --i; return t; }
    Gen& operator+=(std::ptrdiff_t d) { i += d; return *this; } Gen& operator-=(std::ptrdiff_t d) { i -= d; return *this; }
    friend Gen operator+(Gen a, std::ptrdiff_t d) { return a += d; } friend Gen operator-(Gen a, std::ptrdiff_t d) { return a -= d; } friend std::ptrdiff_t operator-(const Gen& a, const Gen& b) { return a.i - b.i; }
    friend bool operator==(const Gen& a, const Gen& b) { return a.i == b.i; } friend bool operator!=(const Gen& a, const Gen& b) { return a.i != b.i; } friend bool operator<(const Gen& a, const Gen& b) { return a.i < b.i; }
    friend bool operator>(const Gen& a, const Gen& b) { return a.i > b.i; } friend bool operator<=(const Gen& a, const Gen& b) { return a.i <= b.i; } friend bool operator>=(const Gen& a, const Gen& b) { return a.i >= b.i; }
};
struct Zeros {
    typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
    long long i; u64 salt;
    Zeros(long long x = 0, u64 s = 0) : i(x), salt(s) {}
    T operator*() const { return T(0); } T operator[](std::ptrdiff_t d) const { (void)d; return T(0); }
    Zeros& operator++() { ++i; return *this; } Zeros operator++(int) { Zeros t = *this; ++i; return t; } Zeros& operator--() { --i; return *this; } Zeros operator--(int) { Zeros t = *this; --i; return t; }
    Zeros& operator+=(std::ptrdiff_t d) { i += d; return *this; } Zeros& operator-=(std::ptrdiff_t d) { i -= d; return *this; }
    friend Zeros operator+(Zeros a, std::ptrdiff_t d) { return a += d; } friend Zeros operator-(Zeros a, std::ptrdiff_t d) { return a -= d; } friend std::ptrdiff_t operator-(const Zeros& a, const Zeros& b) { return a.i - b.i; }
    friend bool operator==(const Zeros& a, const Zeros& b) { return a.i == b.i; } friend bool operator!=(const Zeros& a, const Zeros& b) { return a.i != b.i; } friend bool operator<(const Zeros& a, const Zeros& b) { return a.i < b.i; }
    friend bool operator>(const Zeros& a, const Zeros& b) { return a.i > b.i; } friend bool operator<=(const Zeros& a, const Zeros& b) { return a.i <= b.i; } friend bool operator>=(const Zeros& a, const Zeros& b) { return a.i >= b.i; }
};
const int NP = 17;
const char* const pnames[] = { "mode", "cap", "off", "size", "front", "op0", "pos0", "cnt0", "x0", "op1", "pos1", "cnt1", "x1", "op2", "pos2", "cnt2", "x2" };
enum Op { PUSHB, PUSHF, POPB, POPF, INS1, RINS1, INSN, RINSN, INSR, RINSR, ERASE, RERASE, ERASER, RERASER, ERASEB, ERASEE, ROT, LIN, SETCAP, RSETCAP, RESIZE, RRESIZE, ASSN, ASSCN, ASSR, ASSCR, COPY, SWAP, AT, LENERR, CLEAR, CMP, ALG, GIANTF, NOPS };
static const char* const opn[] = { "push_back", "push_front", "pop_back", "pop_front", "insert", "rinsert", "insert(n)", "rinsert(n)", "insert(range)", "rinsert(range)", "erase", "rerase", "erase(range)", "rerase(range)", "erase_begin", "erase_end", "rotate", "linearize",
    "set_capacity", "rset_capacity", "resize", "rresize", "assign(n)", "assign(cap,n)", "assign(range)", "assign(cap,range)", "copy", "swap", "at", "length_error", "clear", "compare", "algorithms", "giant forms" };
// capacity classes
static u64 capof(unsigned k) {
    static const u64 base[] = { 250, 506, 1020, 65530, 131066, (1ull << 31) - 6, (1ull << 32) - 6, (1ull << 32) + 250, (1ull << 33) - 3, (1ull << 40) - 5 };
    if (k < 24) return k; k -= 24; unsigned b = k / 12 % 10; return base[b] + k % 12;
}
static bool giant(u64 cap) { return cap > 4000000; }
// count classes; cap and size make some of them relative
static u64 cntof(unsigned k, u64 cap, u64 size, u64 pos) {
    u64 tail = size - pos, fr = cap - size, M = ~0ull, P = (u64)PTRDIFF_MAX;
    switch (k % 36) {
    case 0: return 0; case 1: return 1; case 2: return 2; case 3: return 3; case 4: return fr; case 5: return fr + 1; case 6: return fr ? fr - 1 : 0; case 7: return cap; case 8: return cap + 1; case 9: return cap ? cap - 1 : 0;
    case 10: return cap - tail; case 11: return cap - tail + 1; case 12: return cap - pos; case 13: return cap - pos + 1; case 14: return size; case 15: return 255; case 16: return 256; case 17: return 257; case 18: return 65535; case 19: return 65536;
    case 20: return (1ull << 31) - 1; case 21: return 1ull << 31; case 22: return (1ull << 32) - 1; case 23: return 1ull << 32; case 24: return (1ull << 32) + 1; case 25: return (1ull << 32) + size; case 26: return M; case 27: return M - 1; case 28: return M - size; case 29: return M - size + 1;
    case 30: return M - cap; case 31: return M - tail; case 32: return P; case 33: return P + 1; case 34: return M - pos + 1; default: return M / 2 + cap; }
}
std::string describe(const PCase& c) {
    char b[200]; u64 cap = capof(c.p[1]); snprintf(b, sizeof b, "capacity %llu;", cap); std::string s = b;
    for (int k = 0; k < 3; ++k) s += std::string(k ? ", " : " ") + opn[c.p[5 + 4 * k] % NOPS];
    return s;
}
const char* tag_of(const PCase&) { return "LARGE"; }
bool nontrivial(const PCase& c) {
    if (c.p[0]) return true;
    if (capof(c.p[1]) > 255) return true;
    for (int k = 0; k < 3; ++k) { unsigned o = c.p[5 + 4 * k] % NOPS, n = c.p[7 + 4 * k] % 36; if (o == LENERR || ((o == INSN || o == RINSN || o == INSR || o == RINSR || o == AT || o == ASSCR) && n >= 15)) return true; }
    return false;
}
void gen(Rng& r, PCase& c) {
    unsigned w = r.below(200);
    c.p[1] = w < 110 ? r.below(16) : w < 160 ? 24 + r.below(36) : w < 162 ? 60 + r.below(24) : 84 + r.below(60);
    c.p[2] = r.below(8); c.p[3] = r.below(9); c.p[4] = r.below(12);
    for (int k = 0; k < 3; ++k) { c.p[5 + 4 * k] = r.below(4) == 0 ? (unsigned[]){ INSN, RINSN, INSR, RINSR, LENERR, AT }[r.below(6)] : r.below(NOPS); c.p[6 + 4 * k] = r.below(10); c.p[7 + 4 * k] = r.below(36); c.p[8 + 4 * k] = r.below(1000); }
}
bool enum_next(PCase& c, bool first, unsigned maxcap) {
    if (maxcap >= 100) { // the few cases with more than 2^32 elements
        if (first) { c.p[0] = 1; return true; }
        return ++c.p[0] <= 6;
    }
    if (first) { c.p[6] = 0; c.p[9] = CLEAR; c.p[13] = CLEAR; return true; }
    // cap, off, size, pos, cnt, op
    unsigned lim[6] = { maxcap + 4, maxcap, 9, 10, 36, NOPS }; int idx[6] = { 1, 2, 3, 6, 7, 5 };
    for (int i = 5; i >= 0; --i) { if (++c.p[idx[i]] < lim[i]) { return true; } c.p[idx[i]] = 0; }
    return false;
}
// ---- checks
typedef std::deque<T> M;
static void same(const C& c, const M& m, u64 cap, const char* after) {
    if ((u64)c.size() != m.size()) bad("%s: size() is %llu, expected %llu", after, (u64)c.size(), (u64)m.size());
    if ((u64)c.capacity() != cap) bad("%s: capacity() is %llu, expected %llu", after, (u64)(std::size_t)c.capacity(), cap);
    if ((u64)c.reserve() != cap - m.size()) bad("%s: reserve() is %llu, expected %llu", after, (u64)c.reserve(), cap - m.size());
    if (c.full() != (m.size() == cap) || c.empty() != m.empty()) bad("%s: full() or empty() is wrong", after);
    if ((u64)(c.end() - c.begin()) != m.size() || (u64)(c.rend() - c.rbegin()) != m.size()) bad("%s: the distance from begin to end is %lld, expected %llu", after, (long long)(c.end() - c.begin()), (u64)m.size());
    if ((u64)c.array_one().second + c.array_two().second != m.size()) bad("%s: the two segments hold %llu and %llu, expected %llu together", after, (u64)c.array_one().second, (u64)c.array_two().second, (u64)m.size());
    u64 n = m.size(), i = 0; C::const_iterator it = c.begin();
    for (; i < n && it != c.end(); ++it, ++i) if (!(*it == m[i])) bad("%s: wrong element %llu of %llu (iterating)", after, i, n);
    if (i != n || it != c.end()) bad("%s: iteration does not end after %llu elements", after, n);
    for (i = 0; i < n; i += n > 600 && i > 40 && i + 60 < n ? 37 : 1) { if (!(c[i] == m[i])) bad("%s: wrong element at index %llu of %llu", after, i, n); if (!(*(c.begin() + (std::ptrdiff_t)i) == m[i]) || !(*(c.end() - (std::ptrdiff_t)(n - i)) == m[i]) || (u64)((c.begin() + (std::ptrdiff_t)i) - c.begin()) != i) bad("%s: iterator arithmetic is wrong at %llu of %llu", after, i, n); }
    if (n) { if (!(c.front() == m.front()) || !(c.back() == m.back())) bad("%s: front() or back() is wrong", after); }
    u64 far[] = { n, n + 1, (1ull << 32), (1ull << 32) + (n ? n - 1 : 0), (u64)PTRDIFF_MAX, ~0ull, ~0ull - n, cap };
    for (unsigned k = 0; k < sizeof far / sizeof *far; ++k) if (far[k] >= n) { bool t = false; try { (void)c.at((std::size_t)far[k]); } catch (const std::out_of_range&) { t = true; } if (!t) bad("%s: at(%llu) of %llu elements did not throw", after, far[k], n); }
    if (a_over) bad("%s: more than the allocator's maximum was requested from it", after);
}
static u64 posof(unsigned k, u64 n) { switch (k % 10) { case 0: return 0; case 1: return n; case 2: return n / 2; case 3: return n ? 1 : 0; case 4: return n ? n - 1 : 0; case 5: return n / 3; case 6: return n > 256 ? 256 : n; case 7: return n > 255 ? 255 : n / 4; case 8: return n > 2 ? n - 2 : n; default: return n > 65536 ? 65536 : n * 3 / 4; } }
static void fit(M& m, u64 cap, bool front) { if (m.size() > cap) { if (front) m.erase(m.begin(), m.begin() + (long)(m.size() - cap)); else m.erase(m.begin() + (long)cap, m.end()); } }
static T Gen_at(u64 salt, u64 i) { return mk(salt + i); }
static void giga(unsigned which);
// runs f and expects a length error that asks for no memory and changes nothing
template <class F> static void lenerr(C& c, M& m, u64 cap, const char* what, F f) {
    u64 rq = a_requests; bool t = false; char b[120]; snprintf(b, sizeof b, "%s above max_size()", what);
    try { f(); } catch (const std::length_error&) { t = true; } catch (const std::bad_alloc&) { bad("%s reached the allocator (bad_alloc) instead of raising a length error", b); } catch (...) { bad("%s raised another exception than a length error", b); }
    if (!t) bad("%s did not raise a length error", b);
    if (a_requests != rq) bad("%s asked the allocator for memory", b);
    same(c, m, cap, b);
}
static void body(const PCase& p) {
    u64 cap = capof(p.p[1]); a_limit = ~0ull; a_requests = a_over = 0; a_refused = false; a_live = 0;
    bool big = giant(cap);
    {
        C c(static_cast<C::capacity_type>(cap)); M m; u64 serial = 1;
        // initial state: an offset and a size. A large buffer is offset by pushing at the front.
        u64 size, off = 0;
        if (big) { size = p.p[3] * 3; u64 front = p.p[4] % (size + 1); for (u64 i = 0; i < front; ++i) { T x = mk(serial++); c.push_front(x); m.push_front(x); } for (u64 i = front; i < size; ++i) { T x = mk(serial++); c.push_back(x); m.push_back(x); } }
        else {
            size = p.p[3] == 0 ? 0 : p.p[3] == 1 ? cap : p.p[3] == 2 ? (cap ? cap - 1 : 0) : p.p[3] == 3 ? cap / 2 : p.p[3] == 4 ? (cap ? 1 : 0) : p.p[3] == 5 ? (cap > 2 ? cap - 2 : cap) : p.p[3] == 6 ? (cap > 255 ? 255 : cap / 3) : p.p[3] == 7 ? (cap > 256 ? 256 : cap * 2 / 3) : (cap > 2 ? 2 : cap);
            off = cap ? (p.p[2] == 0 ? 0 : p.p[2] == 1 ? cap - 1 : p.p[2] == 2 ? cap / 2 : p.p[2] == 3 ? 1 : p.p[2] == 4 ? cap - size : p.p[2] == 5 ? (cap > 256 ? 256 : 2) : p.p[2] == 6 ? cap * 3 / 4 : cap / 3) : 0;
            for (u64 i = 0; i < off; ++i) { if (c.full()) c.pop_front(); c.push_back(mk(7)); if (c.size() > 1) c.pop_front(); } c.clear();
            for (u64 i = 0; i < size; ++i) { T x = mk(serial++); c.push_back(x); m.push_back(x); }
        }
        same(c, m, cap, "initial state");
        for (int k = 0; k < 3; ++k) {
            unsigned op = p.p[5 + 4 * k] % NOPS; u64 n = m.size(), pos = posof(p.p[6 + 4 * k], n), cnt = cntof(p.p[7 + 4 * k], cap, n, pos); serial += p.p[8 + 4 * k]; T x = mk(serial++); u64 salt = serial; serial += 4000;
            u64 small = giant(cap) ? cnt % 97 : cnt > 200000 ? cnt % 301 : cnt; // counts that are really carried out
            u64 newcap = 0;
            switch (op) {
            case PUSHB: c.push_back(x); if (cap) { m.push_back(x); fit(m, cap, true); } break;
            case PUSHF: c.push_front(x); if (cap) { m.push_front(x); fit(m, cap, false); } break;
            case POPB: if (n) { c.pop_back(); m.pop_back(); } break;
            case POPF: if (n) { c.pop_front(); m.pop_front(); } break;
            case INS1: { C::iterator r = c.insert(c.begin() + (std::ptrdiff_t)pos, x); if (n < cap || pos) { m.insert(m.begin() + (long)pos, x); u64 at = pos; if (m.size() > cap) { m.pop_front(); --at; } if ((u64)(r - c.begin()) != at) bad("insert returns position %lld, expected %llu", (long long)(r - c.begin()), at); } break; }
            case RINS1: { C::iterator r = c.rinsert(c.begin() + (std::ptrdiff_t)pos, x); if (n < cap || pos < n) { m.insert(m.begin() + (long)pos, x); fit(m, cap, false); if ((u64)(r - c.begin()) != pos) bad("rinsert returns position %lld, expected %llu", (long long)(r - c.begin()), pos); } break; }
            case INSN: case INSR: {
                u64 tail = n - pos, room = cap - tail; if (giant(cap)) { cnt = small; } // at most room of the new values stay
                u64 q = op == INSR && cnt > (u64)PTRDIFF_MAX ? (u64)PTRDIFF_MAX : cnt, keep = q < room ? q : room;
                if (op == INSN) c.insert(c.begin() + (std::ptrdiff_t)pos, (C::size_type)q, x); else c.insert(c.begin() + (std::ptrdiff_t)pos, Gen(0, salt), Gen((long long)q, salt));
                M nw; for (u64 i = q - keep; i < q; ++i) nw.push_back(op == INSN ? x : Gen_at(salt, i));
                if (q > keep) m.erase(m.begin(), m.begin() + (long)pos), pos = 0;
                if (!nw.empty()) m.insert(m.begin() + (long)pos, nw.begin(), nw.end());
                fit(m, cap, true); break; }
            case RINSN: case RINSR: {
                u64 head = pos, room = cap - head; if (giant(cap)) { cnt = small; }
                u64 q = op == RINSR && cnt > (u64)PTRDIFF_MAX ? (u64)PTRDIFF_MAX : cnt, keep = q < room ? q : room;
                if (op == RINSN) c.rinsert(c.begin() + (std::ptrdiff_t)pos, (C::size_type)q, x); else c.rinsert(c.begin() + (std::ptrdiff_t)pos, Gen(0, salt), Gen((long long)q, salt));
                M nw; for (u64 i = 0; i < keep; ++i) nw.push_back(op == RINSN ? x : Gen_at(salt, i));
                if (q > keep) m.erase(m.begin() + (long)pos, m.end());
                if (!nw.empty()) m.insert(m.begin() + (long)pos, nw.begin(), nw.end());
                fit(m, cap, false); break; }
            case ERASE: if (pos < n) { C::iterator r = c.erase(c.begin() + (std::ptrdiff_t)pos); m.erase(m.begin() + (long)pos); if ((u64)(r - c.begin()) != pos) bad("erase returns a wrong iterator"); } break;
            case RERASE: if (pos < n) { C::iterator r = c.rerase(c.begin() + (std::ptrdiff_t)pos); m.erase(m.begin() + (long)pos); if ((u64)(r - c.begin()) != (pos ? pos - 1 : 0)) bad("rerase returns a wrong iterator"); } break;
            case ERASER: { u64 d = cnt % (n - pos + 1); C::iterator r = c.erase(c.begin() + (std::ptrdiff_t)pos, c.begin() + (std::ptrdiff_t)(pos + d)); if (d) m.erase(m.begin() + (long)pos, m.begin() + (long)(pos + d)); if ((u64)(r - c.begin()) != pos) bad("erase(range) returns a wrong iterator"); break; }
            case RERASER: { u64 d = cnt % (n - pos + 1); C::iterator r = c.rerase(c.begin() + (std::ptrdiff_t)pos, c.begin() + (std::ptrdiff_t)(pos + d)); if (d) m.erase(m.begin() + (long)pos, m.begin() + (long)(pos + d)); if (d && (u64)(r - c.begin()) != (pos ? pos - 1 : 0)) bad("rerase(range) returns a wrong iterator"); break; }
            case ERASEB: { u64 d = cnt % (n + 1); 
#if CONT
                c.erase(c.begin(), c.begin() + (std::ptrdiff_t)d);
#else
                c.erase_begin((C::size_type)d);
#endif
                m.erase(m.begin(), m.begin() + (long)d); break; }
            case ERASEE: { u64 d = cnt % (n + 1);
#if CONT
                c.rerase(c.end() - (std::ptrdiff_t)d, c.end());
#else
                c.erase_end((C::size_type)d);
#endif
                m.erase(m.end() - (long)d, m.end()); break; }
            case ROT: if (n && pos < n) { c.rotate(c.begin() + (std::ptrdiff_t)pos); std::rotate(m.begin(), m.begin() + (long)pos, m.end()); } break;
            case LIN: c.linearize(); if (!c.is_linearized() || c.array_two().second) bad("linearize left the content in two parts"); break;
            case SETCAP: case RSETCAP: newcap = p.p[8 + 4 * k] % 5 == 0 ? capof(84 + p.p[8 + 4 * k] % 60) : giant(cap) && p.p[8 + 4 * k] % 2 ? cap - 1 - p.p[8 + 4 * k] % 7 : small; if (op == SETCAP) c.set_capacity(newcap); else c.rset_capacity(newcap); cap = newcap; fit(m, cap, op == RSETCAP); break;
            case RESIZE: c.resize((C::size_type)small, x); if (small > cap) cap = small; m.resize(small, x); break;
            case RRESIZE: c.rresize((C::size_type)small, x); if (small > cap) cap = small; if (small < n) m.erase(m.begin(), m.begin() + (long)(n - small)); else m.insert(m.begin(), small - n, x); break;
            case ASSN: c.assign((C::size_type)small, x); m.assign(small, x); cap = small; break;
            case ASSCN: newcap = small + (cnt & 1 ? 3 : 0); c.assign(static_cast<C::capacity_type>(newcap), (C::size_type)small, x); m.assign(small, x); cap = newcap; break;
            case ASSR: c.assign(Gen(0, salt), Gen((long long)small, salt)); m.clear(); for (u64 i = 0; i < small; ++i) m.push_back(Gen_at(salt, i)); cap = small; break;
            case ASSCR: { newcap = p.p[6 + 4 * k] * 30; u64 q = cnt > (u64)PTRDIFF_MAX ? (u64)PTRDIFF_MAX : cnt; u64 keep = q < newcap ? q : newcap; c.assign(static_cast<C::capacity_type>(newcap), Gen(0, salt), Gen((long long)q, salt)); m.clear(); for (u64 i = q - keep; i < q; ++i) m.push_back(Gen_at(salt, i)); cap = newcap;
                C d(static_cast<C::capacity_type>(newcap), Gen(0, salt), Gen((long long)q, salt)); same(d, m, cap, "constructing from a long range"); break; }
            case COPY: { C d(c); same(d, m, cap, "copying"); C e(static_cast<C::capacity_type>(3)); e = c; same(e, m, cap, "assigning"); C f(static_cast<C&&>(d)); same(f, m, cap, "moving"); c = f; break; }
            case SWAP: { C d(static_cast<C::capacity_type>(300)); for (int i = 0; i < 270; ++i) d.push_back(mk((u64)i)); c.swap(d); same(d, m, cap, "swapping"); M m2; for (int i = 0; i < 270; ++i) m2.push_back(mk((u64)i)); same(c, m2, 300, "swapping"); c.swap(d); break; }
            case AT: { u64 i = cnt; bool t = false; try { T y = c.at((std::size_t)i); if (i < n && !(y == m[i])) bad("at(%llu) gives a wrong element", i); } catch (const std::out_of_range&) { t = true; } if (t != (i >= n)) bad("at(%llu) with %llu elements %s", i, n, t ? "throws" : "does not throw"); break; }
            case CLEAR: c.clear(); m.clear(); break;
            case CMP: { // the same content stored elsewhere, then changed in one place, then of another length
                C d(static_cast<C::capacity_type>(n + 1 + p.p[8 + 4 * k] % 3)); u64 turn = p.p[8 + 4 * k] % (n + 1); M e(m);
                for (u64 i = 0; i < turn; ++i) { d.push_back(x); if (d.size() > 1) d.pop_front(); } d.clear(); for (u64 i = 0; i < n; ++i) d.push_back(m[i]);
                for (int step = 0; step < 4; ++step) {
                    if (step == 1 && n) { u64 at = pos < n ? pos : n - 1; d[at] = x; e[at] = x; }
                    if (step == 2) { d.push_back(x); e.push_back(x); }
                    if (step == 3 && n) { d[n - 1] = m[n - 1]; e[n - 1] = m[n - 1]; d.pop_front(); e.pop_front(); }
                    bool eq = m == e, lt = m < e, gt = e < m;
                    if ((c == d) != eq || (d == c) != eq || (c != d) == eq) bad("comparing %llu with %llu elements for equality gives a wrong answer", n, (u64)e.size());
                    if ((c < d) != lt || (d < c) != gt || (c > d) != gt || (d > c) != lt || (c <= d) == gt || (c >= d) == lt) bad("ordering %llu against %llu elements gives a wrong answer", n, (u64)e.size());
                }
                break; }
            case GIANTF: { // constructed or assigned with a giant capacity and a few elements, as many as the capacity's low bits say
                unsigned w = p.p[8 + 4 * k], few = w % 12; static const u64 gb[] = { 1ull << 32, (1ull << 32) + 1, 1ull << 33, (1ull << 32) + (1ull << 31), 1ull << 31, 3ull << 36 }; u64 g = gb[w / 12 % 6] + few;
                T y = mk(salt); long long few_ll = (long long)few; M e; for (unsigned i = 0; i < few; ++i) e.push_back(y);
#if CONT
                C::capacity_type gc((C::size_type)g, (C::size_type)(w & 1 ? g : 0));
#else
                C::capacity_type gc = (C::capacity_type)g;
#endif
                C d(static_cast<C::capacity_type>(1)); d.push_back(x); unsigned form = p.p[6 + 4 * k] % 9; char what[40]; snprintf(what, sizeof what, "giant form %u", form);
                if (form == 2 || form == 4) { e.clear(); for (unsigned i = 0; i < few; ++i) e.push_back(Gen_at(salt, i)); }
                switch (form) {
                case 0: { C z(gc); for (unsigned i = 0; i < few; ++i) z.push_back(y); z.swap(d); break; }
                case 1: { C z(gc, (C::size_type)few, y); z.swap(d); break; }
                case 2: { C z(gc, Gen(0, salt), Gen(few_ll, salt)); z.swap(d); break; }
                case 3: d.assign(gc, (C::size_type)few, y); break;
                case 4: d.assign(gc, Gen(0, salt), Gen(few_ll, salt)); break;
                case 5: { T z3(3); d.assign(gc, few_ll, (long long)3); e.assign(few, z3); break; }
                case 6: { T z3(3); C z(gc, few_ll, (long long)3); z.swap(d); e.assign(few, z3); break; }
                case 7: d.clear(); d.set_capacity(gc); d.insert(d.begin(), (C::size_type)few, y); break;
                default: d.clear(); d.rset_capacity(gc); d.rinsert(d.end(), few_ll, (long long)3); e.assign(few, T(3)); break;
                }
                same(d, e, g, what);
                for (unsigned i = 0; i < 3; ++i) { T q = mk(salt + 50 + i); d.push_back(q); e.push_back(q); q = mk(salt + 70 + i); d.push_front(q); e.push_front(q); }
                same(d, e, g, what);
                { C f(d); same(f, e, g, "copying"); }
                d.rotate(d.begin() + 2); std::rotate(e.begin(), e.begin() + 2, e.end()); d.linearize(); same(d, e, g, what);
                break; }
            case ALG: { // through the iterators only
                switch (p.p[8 + 4 * k] % 6) {
                case 0: std::reverse(c.begin(), c.end()); std::reverse(m.begin(), m.end()); break;
                case 1: std::sort(c.begin(), c.end()); std::sort(m.begin(), m.end()); break;
                case 2: std::copy(c.begin() + (std::ptrdiff_t)pos, c.end(), c.begin()); std::copy(m.begin() + (long)pos, m.end(), m.begin()); break;
                case 3: std::copy_backward(c.begin(), c.begin() + (std::ptrdiff_t)pos, c.end()); std::copy_backward(m.begin(), m.begin() + (long)pos, m.end()); break;
                case 4: std::fill(c.rbegin(), c.rbegin() + (std::ptrdiff_t)pos, x); std::fill(m.rbegin(), m.rbegin() + (long)pos, x); break;
                default: { std::vector<T> v(c.rbegin(), c.rend()); M e(m.rbegin(), m.rend()); if (v.size() != e.size() || !std::equal(v.begin(), v.end(), e.begin())) bad("copying out in reverse gives a wrong sequence"); u64 at = (u64)(std::find(c.begin(), c.end(), x) - c.begin()), want = (u64)(std::find(m.begin(), m.end(), x) - m.begin()); if (at != want) bad("find gives %llu, expected %llu", at, want); }
                }
                break; }
            default: {
                // a limit at or above what is in use
                u64 need = cap; a_limit = need + p.p[8 + 4 * k] % 4; u64 ms = (u64)PTRDIFF_MAX / sizeof(T), lim = a_limit < ms ? a_limit : ms; if ((u64)c.max_size() != lim) bad("max_size() is %llu with an allocator limit of %llu", (u64)c.max_size(), a_limit);
                u64 ask = cnt > lim ? cnt : lim + 1; const C& cc = c;
                switch (p.p[6 + 4 * k]) {
                case 0: lenerr(c, m, cap, "set_capacity", [&] {
#if CONT
                    c.set_capacity(C::capacity_type(ask, ask));
#else
                    c.set_capacity(ask);
#endif
                    }); break;
                case 1: lenerr(c, m, cap, "rset_capacity", [&] {
#if CONT
                    c.rset_capacity(C::capacity_type(ask, ask));
#else
                    c.rset_capacity(ask);
#endif
                    }); break;
                case 2: lenerr(c, m, cap, "resize", [&] { c.resize((C::size_type)ask, x); }); break;
                case 3: lenerr(c, m, cap, "rresize", [&] { c.rresize((C::size_type)ask, x); }); break;
                case 4: lenerr(c, m, cap, "the constructor of an empty buffer", [&] {
#if CONT
                    C d(C::capacity_type(ask, ask));
#else
                    C d((C::capacity_type)ask);
#endif
                    }); break;
                case 5: lenerr(c, m, cap, "the constructor from n copies", [&] { C d((C::size_type)ask, x); }); break;
                case 6: lenerr(c, m, cap, "assign(n, value)", [&] { c.assign((C::size_type)ask, x); }); break;
                case 7: { u64 q = ask > (u64)PTRDIFF_MAX ? (u64)PTRDIFF_MAX : ask; if (q <= lim) break; lenerr(c, m, cap, "assign(range)", [&] { c.assign(Gen(0, salt), Gen((long long)q, salt)); }); lenerr(c, m, cap, "the constructor from a range", [&] { C d(Gen(0, salt), Gen((long long)q, salt)); }); break; }
                case 8: lenerr(c, m, cap, "the constructor with capacity and n copies", [&] {
#if CONT
                    C d(C::capacity_type(ask, ask), (C::size_type)1, x);
#else
                    C d((C::capacity_type)ask, (C::size_type)1, x);
#endif
                    }); break;
                default: lenerr(c, m, cap, "assign(capacity, n, value)", [&] {
#if CONT
                    c.assign(C::capacity_type(ask, ask), (C::size_type)1, x);
#else
                    c.assign((C::capacity_type)ask, (C::size_type)1, x);
#endif
                    }); lenerr(c, m, cap, "assign(capacity, range)", [&] {
#if CONT
                    c.assign(C::capacity_type(ask, ask), Gen(0, salt), Gen(2, salt));
#else
                    c.assign((C::capacity_type)ask, Gen(0, salt), Gen(2, salt));
#endif
                    });
                }
#if CONT
                { // a capacity limit nothing can fill: asking for more than the maximum size
                    u64 room = p.p[8 + 4 * k] / 4 % 3 == 0 ? ask : ~0ull; u64 keep_limit = a_limit; a_limit = ~0ull; C d(c); d.set_capacity(C::capacity_type((C::size_type)room, 0)); a_limit = keep_limit;
                    u64 more = p.p[8 + 4 * k] / 12 % 3 == 0 ? ~0ull : p.p[8 + 4 * k] / 12 % 3 == 1 ? lim + 1 : lim < (1ull << 60) ? 3 * lim + 99 : ask;
                    u64 grown = n + (more < room - n ? more : room - n); // the copy may own storage slightly above the limit
                    if (grown > lim && grown - lim > lim + 64) {
                        lenerr(d, m, room, "insert(n)", [&] { d.insert(d.begin() + (std::ptrdiff_t)pos, (C::size_type)more, x); });
                        lenerr(d, m, room, "rinsert(n)", [&] { d.rinsert(d.begin() + (std::ptrdiff_t)pos, (C::size_type)more, x); });
                        lenerr(d, m, room, "resize", [&] { d.resize((C::size_type)(more < room ? more : room), x); });
                        lenerr(d, m, room, "rresize", [&] { d.rresize((C::size_type)(more < room ? more : room), x); });
                        if (more <= (u64)PTRDIFF_MAX) lenerr(d, m, room, "insert(range)", [&] { d.insert(d.begin() + (std::ptrdiff_t)pos, Gen(0, salt), Gen((long long)more, salt)); });
                    }
                }
#endif
                // exactly the limit is allowed
                if (!giant(lim) && &cc == &c) { C d(static_cast<C::capacity_type>(lim)); d.push_back(x); if (lim && d.size() != 1) bad("a buffer with the maximum capacity does not work"); C e(c); e.set_capacity(lim); same(e, m, lim, "set_capacity(max_size())"); }
                a_limit = ~0ull;
            } }
            if (a_refused) bad("%s asked for memory beyond anything needed", opn[op]);
            same(c, m, cap, opn[op]);
        }
    }
    if (a_live) bad("storage leaked");
}
// ---- more than 2^32 elements: front part, a run of zeros, back part
struct Big {
    M f, b; u64 zeros;
    u64 size() const { return f.size() + zeros + b.size(); }
    T at(u64 i) const { return i < f.size() ? f[i] : i < f.size() + zeros ? T(0) : b[i - f.size() - zeros]; }
};
static void bigsame(const C& c, const Big& g, u64 cap, const char* after) {
    u64 n = g.size();
    if ((u64)c.size() != n || (u64)c.capacity() != cap || (u64)c.reserve() != cap - n || c.full() != (n == cap) || c.empty()) bad("%s: size %llu capacity %llu, expected %llu of %llu", after, (u64)c.size(), (u64)(std::size_t)c.capacity(), n, cap);
    if ((u64)(c.end() - c.begin()) != n || (u64)c.array_one().second + c.array_two().second != n) bad("%s: the distance from begin to end is %lld, expected %llu", after, (long long)(c.end() - c.begin()), n);
    u64 ix[400]; int k = 0; for (u64 i = 0; i < 110; ++i) { ix[k++] = i; ix[k++] = n - 1 - i; } for (u64 i = 0; i < 20; ++i) { ix[k++] = (1ull << 32) - 10 + i; ix[k++] = (1ull << 31) - 10 + i; ix[k++] = n / 20 * i; }
    for (int j = 0; j < k; ++j) { u64 i = ix[j]; if (i >= n) continue; T e = g.at(i); if (!(c[i] == e) || !(c.at(i) == e) || !(*(c.begin() + (std::ptrdiff_t)i) == e) || !(c.begin()[(std::ptrdiff_t)i] == e) || !(*(c.end() - (std::ptrdiff_t)(n - i)) == e) || (u64)((c.begin() + (std::ptrdiff_t)i) - c.begin()) != i) bad("%s: wrong element at index %llu of %llu", after, i, n); }
    u64 i = 0; for (C::const_iterator it = c.begin(); i < 110; ++i, ++it) if (!(*it == g.at(i))) bad("%s: wrong element %llu (iterating)", after, i);
    i = 0; for (C::const_reverse_iterator it = c.rbegin(); i < 110; ++i, ++it) if (!(*it == g.at(n - 1 - i))) bad("%s: wrong element %llu from the end (iterating)", after, i);
    bool t = false; try { c.at((std::size_t)n); } catch (const std::out_of_range&) { t = true; } if (!t) bad("%s: at(size()) did not throw", after);
}
static void giga(unsigned which) {
    // the zeros come first, in a form of their own each; then some elements at both ends
    u64 cap = (1ull << 32) + 50, start = which == 1 ? cap : (1ull << 32) + 20; u64 front = which == 1 ? 13 : which == 2 ? 0 : which == 3 ? 40 : 25; a_limit = ~0ull;
    C c(static_cast<C::capacity_type>(cap)); Big g; g.zeros = start - 45 - front; u64 s = 1;
    switch (which) {
    case 1: { C z(static_cast<C::capacity_type>(cap), Zeros(0), Zeros((long long)cap + 70)); z.swap(c); g.zeros = cap; break; }
    case 2: c.rresize((C::size_type)g.zeros, T(0)); break;
    case 3: c.insert(c.begin(), Zeros(0), Zeros((long long)g.zeros)); break;
    case 4: c.rinsert(c.end(), (C::size_type)g.zeros, T(0)); break;
    case 5: c.assign(static_cast<C::capacity_type>(cap), Zeros(0), Zeros((long long)cap + 70)); g.zeros = cap; break;
    default: c.push_back(T(1)); c.push_back(T(2)); c.insert(c.begin() + 1, (C::size_type)g.zeros, T(0)); g.f.push_back(T(1)); g.b.push_back(T(2)); break;
    }
    bigsame(c, g, cap, "filling with more than 2^32 elements");
    for (u64 i = 0; i < front; ++i) { T x = mk(s++); c.push_front(x); g.f.push_front(x); if (g.size() > cap) { if (g.b.empty()) --g.zeros; else g.b.pop_back(); } }
    for (int i = 0; i < 45; ++i) { T x = mk(s++); c.push_back(x); g.b.push_back(x); if (g.size() > cap) { if (g.f.empty()) --g.zeros; else g.f.pop_front(); } }
    bigsame(c, g, cap, "growing beyond 2^32 elements");
    for (int i = 0; i < 70; ++i) { T x = mk(s++); c.push_back(x); g.b.push_back(x); if (g.size() > cap) { if (g.f.empty()) --g.zeros; else g.f.pop_front(); } }
    bigsame(c, g, cap, "push_back");
    for (int i = 0; i < 30; ++i) { T x = mk(s++); c.push_front(x); g.f.push_front(x); g.b.pop_back(); }
    bigsame(c, g, cap, "push_front");
    { T x = mk(s++); c.insert(c.end() - 20, x); g.b.insert(g.b.end() - 20, x); g.f.pop_front(); bigsame(c, g, cap, "insert"); }
    { T x = mk(s++); c.rinsert(c.begin() + 9, x); g.f.insert(g.f.begin() + 9, x); g.b.pop_back(); bigsame(c, g, cap, "rinsert"); }
    { T x = mk(s++); c.insert(c.end() - 15, (C::size_type)5, x); g.b.insert(g.b.end() - 15, 5, x); g.f.erase(g.f.begin(), g.f.begin() + 5); bigsame(c, g, cap, "insert(n)"); }
    { T x = mk(s++); c.rinsert(c.begin() + 4, (C::size_type)6, x); g.f.insert(g.f.begin() + 4, 6, x); g.b.erase(g.b.end() - 6, g.b.end()); bigsame(c, g, cap, "rinsert(n)"); }
    { c.insert(c.end() - 7, Gen(0, s), Gen(4, s)); M nw; for (int i = 0; i < 4; ++i) nw.push_back(mk(s + i)); g.b.insert(g.b.end() - 7, nw.begin(), nw.end()); g.f.erase(g.f.begin(), g.f.begin() + 4); bigsame(c, g, cap, "insert(range)"); }
    { C::iterator r = c.erase(c.end() - 12); g.b.erase(g.b.end() - 12); if (c.end() - r != 11) bad("erase returns a wrong iterator"); bigsame(c, g, cap, "erase"); }
    { C::iterator r = c.rerase(c.begin() + 3); g.f.erase(g.f.begin() + 3); if (r - c.begin() != 2) bad("rerase returns a wrong iterator"); bigsame(c, g, cap, "rerase"); }
    { c.erase(c.end() - 9, c.end() - 5); g.b.erase(g.b.end() - 9, g.b.end() - 5); bigsame(c, g, cap, "erase(range)"); }
    { c.rerase(c.begin() + 2, c.begin() + 5); g.f.erase(g.f.begin() + 2, g.f.begin() + 5); bigsame(c, g, cap, "rerase(range)"); }
    for (int i = 0; i < 3; ++i) { c.pop_back(); c.pop_front(); g.b.pop_back(); g.f.pop_front(); }
    bigsame(c, g, cap, "pop");
    { c.rotate(c.begin() + 2); T a = g.f[0], b = g.f[1]; g.f.pop_front(); g.f.pop_front(); g.b.push_back(a); g.b.push_back(b); bigsame(c, g, cap, "rotate"); }
    { c.rotate(c.end() - 3); for (int i = 0; i < 3; ++i) { g.f.push_front(g.b.back()); g.b.pop_back(); } bigsame(c, g, cap, "rotate"); }
    static const int turns[] = { 20, -20, 40, -40, 31, -27 }; // about as many as the size exceeds 2^32
    for (int k = 0; k < 6; ++k) {
        int t = turns[k];
        if (t > 0) { c.rotate(c.begin() + t); for (int i = 0; i < t; ++i) { T a(0); if (g.f.empty()) --g.zeros; else { a = g.f.front(); g.f.pop_front(); } g.b.push_back(a); } }
        else { c.rotate(c.end() + t); for (int i = 0; i < -t; ++i) { T a(0); if (g.b.empty()) --g.zeros; else { a = g.b.back(); g.b.pop_back(); } g.f.push_front(a); } }
        bigsame(c, g, cap, "rotate");
    }
    { u64 nn = g.size() - 10; c.resize((C::size_type)nn); g.b.erase(g.b.end() - 10, g.b.end()); bigsame(c, g, cap, "resize"); }
    { u64 nn = g.size() - 5; c.rresize((C::size_type)nn); g.f.erase(g.f.begin(), g.f.begin() + 5); bigsame(c, g, cap, "rresize"); }
    { T x = mk(s++); u64 nn = g.size() + 6; c.resize((C::size_type)nn, x); for (int i = 0; i < 6; ++i) g.b.push_back(x); bigsame(c, g, cap, "resize"); }
#if !CONT
    { c.erase_begin(3); g.f.erase(g.f.begin(), g.f.begin() + 3); c.erase_end(2); g.b.pop_back(); g.b.pop_back(); bigsame(c, g, cap, "erase_begin, erase_end"); }
#endif
    { C d; c.swap(d); bigsame(d, g, cap, "swap"); if (!c.empty()) bad("swap left elements"); C e(static_cast<C&&>(d)); bigsame(e, g, cap, "move"); c = static_cast<C&&>(e); bigsame(c, g, cap, "move assignment"); }
    if (which == 2) { T* f = 0; f = &*c.linearize(); if (!c.is_linearized() || (u64)c.array_one().second != g.size() || f != &c[0]) bad("linearize left the content in two parts"); bigsame(c, g, cap, "linearize"); }
    if (which == 3) { C d(c); C().swap(c); bigsame(d, g, cap, "copy"); d.swap(c); }
    if (which == 1) { u64 keep = (1ull << 32) + 7; c.rset_capacity(keep); u64 cut = g.size() > keep ? g.size() - keep : 0; while (cut--) { if (g.f.empty()) --g.zeros; else g.f.pop_front(); } bigsame(c, g, cap = keep, "rset_capacity"); }
    if (which == 4) { u64 keep = (1ull << 32) + 5; c.set_capacity(keep); u64 cut = g.size() > keep ? g.size() - keep : 0; while (cut--) { if (g.b.empty()) --g.zeros; else g.b.pop_back(); } bigsame(c, g, keep, "set_capacity"); }
    { u64 n = g.size(); c.erase(c.begin() + 10, c.end() - 10); M r; for (int i = 0; i < 10; ++i) r.push_back(g.at(i)); for (int i = 10; i > 0; --i) r.push_back(g.at(n - i)); same(c, r, (u64)(std::size_t)c.capacity(), "erasing more than 2^32 elements"); }
    c.clear(); if (!c.empty()) bad("clear left elements");
}
void run(const PCase& p) {
    try { if (p.p[0]) giga(p.p[0]); else body(p); }
    catch (const std::exception& e) { if (p.p[0] && a_refused) return; bad("unexpected exception: %s", e.what()); }
}
