// C22: threads read one buffer and mutate their own buffers; run under ThreadSanitizer, results compared with per-thread models.
#include <boost/circular_buffer.hpp>
#include <algorithm>
#include <deque>
#include <list>
#include <stdexcept>
#include <pthread.h>
#include "mini.h"
#define E_INT 1
#define E_STR 2
#if ELEMNAME == E_STR
typedef std::string T;
static T mk(int v) { char b[64]; snprintf(b, sizeof b, "value number %d kept on the heap", v); return b; }
#else
typedef int T;
static T mk(int v) { return v; }
#endif
#if CONT
typedef boost::circular_buffer_space_optimized<T> C;
#else
typedef boost::circular_buffer<T> C;
#endif
const int NP = 5;
const char* const pnames[] = { "cap", "size", "off", "threads", "seed" };
std::string describe(const PCase&) { return "threads reading one buffer while each changes its own"; }
const char* tag_of(const PCase&) { return "RACE"; }
bool nontrivial(const PCase& c) { return c.p[0] % 40 > 0; }
void gen(Rng& r, PCase& c) { c.p[0] = 1 + r.below(20); c.p[1] = r.below(c.p[0] + 1); c.p[2] = r.below(c.p[0]); c.p[3] = r.below(3); c.p[4] = 1 + (unsigned)r.next() % 1000000; }
bool enum_next(PCase& c, bool first, unsigned) { if (first) { c.p[0] = 4; c.p[1] = 3; c.p[2] = 2; c.p[4] = 1; return true; } return ++c.p[4] < 30; }
struct Arg { const C* shared; const std::vector<T>* model; unsigned seed; unsigned cap; volatile int* go; char err[200]; };
#define CK(x) do { if (!(x)) { snprintf(a->err, sizeof a->err, "wrong result: %s", #x); return 0; } } while (0)
// the models skip empty insertions and erasures: libstdc++'s deque self-moves elements in them
static void fit(std::deque<T>& m, size_t cap, bool front) { while (m.size() > cap) { if (front) m.pop_front(); else m.pop_back(); } }
static void* worker(void* v) {
    Arg* a = (Arg*)v; Rng r(a->seed); const C& s = *a->shared; const std::vector<T>& sm = *a->model;
    while (!__atomic_load_n(a->go, __ATOMIC_ACQUIRE)) {}
    C c(a->cap); std::deque<T> m; size_t cap = a->cap;
    for (int i = 0; i < 60; ++i) {
        // read the shared buffer
        switch (r.below(8)) {
        case 0: CK(s.size() == sm.size()); CK(s.full() == (sm.size() == (size_t)s.capacity())); CK(s.empty() == sm.empty()); (void)s.reserve(); break;
        case 1: { size_t k = 0; for (C::const_iterator it = s.begin(); it != s.end(); ++it, ++k) CK(*it == sm[k]); CK(k == sm.size()); break; }
        case 2: for (size_t k = 0; k < sm.size(); ++k) { CK(s[k] == sm[k]); CK(s.at(k) == sm[k]); } break;
        case 3: { C q(s); CK(q == s); CK(!(q < s)); break; }
        case 4: if (!sm.empty()) { CK(s.front() == sm.front()); CK(s.back() == sm.back()); } (void)s.is_linearized(); CK(s.array_one().second + s.array_two().second == sm.size()); break;
        case 5: CK(s.end() - s.begin() == (ptrdiff_t)sm.size()); CK(std::equal(s.rbegin(), s.rend(), sm.rbegin())); (void)s.get_allocator(); (void)s.max_size(); break;
        case 6: { bool t = false; try { s.at(sm.size()); } catch (const std::out_of_range&) { t = true; } CK(t); break; }
        default: { C q(s.begin(), s.end()); CK(q.size() == sm.size()); c = s; m.assign(sm.begin(), sm.end()); cap = (size_t)c.capacity(); } break;
        }
        // change the private one
        int x = (int)r.below(1000);
        int opn = (int)r.below(32); size_t before = m.size();
        switch (opn) {
        case 0: case 1: c.push_back(mk(x)); if (cap) { m.push_back(mk(x)); fit(m, cap, true); } break;
        case 2: c.push_front(mk(x)); if (cap) { m.push_front(mk(x)); fit(m, cap, false); } break;
        case 3: if (!m.empty()) { c.pop_back(); m.pop_back(); } break;
        case 4: if (!m.empty()) { c.pop_front(); m.pop_front(); } break;
        case 5: if (m.size() < cap) { size_t i2 = r.below((unsigned)m.size() + 1); c.insert(c.begin() + (long)i2, mk(x)); m.insert(m.begin() + (long)i2, mk(x)); } break;
        case 6: if (m.size() < cap) { size_t i2 = r.below((unsigned)m.size() + 1); c.rinsert(c.begin() + (long)i2, mk(x)); m.insert(m.begin() + (long)i2, mk(x)); } break;
        case 7: if (!m.empty()) { size_t i2 = r.below((unsigned)m.size()); c.erase(c.begin() + (long)i2); m.erase(m.begin() + (long)i2); } break;
        case 8: if (!m.empty()) { size_t i2 = r.below((unsigned)m.size()); c.rerase(c.begin() + (long)i2); m.erase(m.begin() + (long)i2); } break;
        case 9: if (!m.empty()) { size_t i2 = r.below((unsigned)m.size()); c.rotate(c.begin() + (long)i2); std::rotate(m.begin(), m.begin() + (long)i2, m.end()); } break;
        case 10: c.linearize(); CK(c.is_linearized()); break;
        case 11: cap = r.below(12); c.set_capacity(cap); fit(m, cap, false); break;
        case 12: { size_t k = r.below(5); std::vector<T> src; for (size_t j = 0; j < k; ++j) src.push_back(mk(x + (int)j)); size_t i2 = r.below((unsigned)m.size() + 1); bool noop = m.size() == cap && i2 == 0; c.insert(c.begin() + (long)i2, src.begin(), src.end()); if (!noop && k) { m.insert(m.begin() + (long)i2, src.begin(), src.end()); fit(m, cap, true); } break; }
        case 13: { C d(7); d.push_back(mk(x)); c.swap(d); m.clear(); m.push_back(mk(x)); cap = 7; break; }
        case 14: { size_t k = 1 + r.below(9); c.assign(k, mk(x)); m.assign(k, mk(x)); cap = k; break; }
        case 16: cap = r.below(12); c.rset_capacity(cap); fit(m, cap, true); break;
        case 17: { size_t k = r.below(14); c.rresize(k, mk(x)); if (k > cap) cap = k; while (m.size() > k) m.pop_front(); while (m.size() < k) m.push_front(mk(x)); break; }
        case 18: { size_t k = r.below(4), i2 = r.below((unsigned)m.size() + 1); if (m.size() + k <= cap) { c.rinsert(c.begin() + (long)i2, k, mk(x)); if (k) m.insert(m.begin() + (long)i2, k, mk(x)); } break; }
        case 19: { size_t k = r.below(4), i2 = r.below((unsigned)m.size() + 1); if (m.size() + k <= cap) { c.insert(c.begin() + (long)i2, k, mk(x)); if (k) m.insert(m.begin() + (long)i2, k, mk(x)); } break; }
        case 20: { std::list<T> src(r.below(4), mk(x)); size_t i2 = r.below((unsigned)m.size() + 1); if (m.size() + src.size() <= cap) { c.rinsert(c.begin() + (long)i2, src.begin(), src.end()); if (!src.empty()) m.insert(m.begin() + (long)i2, src.begin(), src.end()); } break; }
        case 21: { size_t b = r.below((unsigned)m.size() + 1), e = b + r.below((unsigned)(m.size() - b) + 1); c.erase(c.begin() + (long)b, c.begin() + (long)e); if (b != e) m.erase(m.begin() + (long)b, m.begin() + (long)e); break; }
        case 22: { size_t b = r.below((unsigned)m.size() + 1), e = b + r.below((unsigned)(m.size() - b) + 1); c.rerase(c.begin() + (long)b, c.begin() + (long)e); if (b != e) m.erase(m.begin() + (long)b, m.begin() + (long)e); break; }
        case 23: { C d(boost::move(c)); CK(d.size() == m.size()); c = boost::move(d); CK(d.empty()); break; }
        case 24: { C d(c); CK(d == c && !(d != c) && !(d < c) && d <= c && d >= c && !(d > c)); c = d; cap = (size_t)c.capacity(); break; }
        case 25: { std::vector<T> src; for (size_t j = r.below(9); j > 0; --j) src.push_back(mk(x + (int)j)); c.assign(src.begin(), src.end()); m.assign(src.begin(), src.end()); cap = src.size(); break; }
        case 26: { std::list<T> src(r.below(9), mk(x)); c.assign(9, src.begin(), src.end()); m.assign(src.begin(), src.end()); cap = 9; break; }
        case 27: c.clear(); m.clear(); break;
        case 28: { T v = mk(x); c.push_back(boost::move(v)); if (cap) { m.push_back(mk(x)); fit(m, cap, true); } break; }
        case 29: { T v = mk(x); c.push_front(boost::move(v)); if (cap) { m.push_front(mk(x)); fit(m, cap, false); } break; }
        case 30: { size_t k = r.below(6); C d(k, mk(x)); using std::swap; swap(c, d); m.assign(k, mk(x)); cap = k; break; }
        case 31: { C d(C::capacity_type(8), (size_t)r.below(9), mk(x)); d.swap(c); m.assign(c.size(), mk(x)); cap = 8; break; }
        default: { size_t k = r.below(14); c.resize(k, mk(x)); if (k > cap) cap = k; m.resize(k, mk(x)); break; }
        }
        if (c.size() != m.size() || (size_t)c.capacity() != cap || !std::equal(m.begin(), m.end(), c.begin())) { snprintf(a->err, sizeof a->err, "wrong result after operation %d, size before %u, size %u capacity %u, expected %u/%u", opn, (unsigned)before, (unsigned)c.size(), (unsigned)(size_t)c.capacity(), (unsigned)m.size(), (unsigned)cap); return 0; }
        //CK(std::equal(m.begin(), m.end(), c.begin()));
    }
    return 0;
}
void run(const PCase& p) {
    unsigned cap = p.p[0] % 40, size = p.p[1] % (cap + 1), off = cap ? p.p[2] % cap : 0, nt = 2 + p.p[3] % 3;
    static C* shared; static std::vector<T> model; shared = new C(cap); model.clear();
    for (unsigned i = 0; i < off; ++i) { shared->push_back(mk(0)); shared->pop_front(); }
    for (unsigned i = 0; i < size; ++i) { shared->push_back(mk((int)i)); model.push_back(mk((int)i)); }
    static volatile int go; go = 0; pthread_t t[4]; static Arg a[4];
    for (unsigned i = 0; i < nt; ++i) { a[i].shared = shared; a[i].model = &model; a[i].seed = p.p[4] * 7 + i; a[i].cap = 1 + (p.p[4] + i * 3) % 11; a[i].go = &go; a[i].err[0] = 0; if (pthread_create(&t[i], 0, worker, &a[i])) { nt = i; break; } }
    __atomic_store_n(&go, 1, __ATOMIC_RELEASE);
    for (unsigned i = 0; i < nt; ++i) pthread_join(t[i], 0);
    for (unsigned i = 0; i < nt; ++i) if (a[i].err[0]) bad("thread %u: %s", i, a[i].err);
    delete shared;
}
extern "C" const char* __tsan_default_options() { return "exitcode=66 halt_on_error=1 report_bugs=1"; }
