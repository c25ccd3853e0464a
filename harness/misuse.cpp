// C20: every documented misuse asserts before memory is touched; the legal neighbour of each never does.
#define BOOST_CB_ENABLE_DEBUG 1
#define BOOST_ENABLE_ASSERT_HANDLER
#include <boost/circular_buffer.hpp>
#include <setjmp.h>
#include <iterator>
#include <list>
#include <string>
#include <vector>
#include "mini.h"
static jmp_buf jb; static volatile int armed, fired; static char where[300];
namespace boost {
void assertion_failed(char const* expr, char const*, char const* file, long line) {
    const char* s = strrchr(file, '/'); snprintf(where, sizeof where, "%s (%s:%ld)", expr, s ? s + 1 : file, line);
    if (armed) { fired = 1; longjmp(jb, 1); }
    bad("assertion failed in a correct program: %s", where);
}
void assertion_failed_msg(char const* e, char const*, char const* f, char const* file, long line) { assertion_failed(e, f, file, line); }
}
#define E_INT 1
#define E_STR 2
#if ELEMNAME == E_STR
typedef std::string T;
static T mk(int v) { char b[64]; snprintf(b, sizeof b, "value number %d kept on the heap", v); return b; }
#else
typedef int T;
static T mk(int v) { return v; }
#endif
#if CONT
typedef boost::circular_buffer_space_optimized<T> C;
#else
typedef boost::circular_buffer<T> C;
#endif
typedef C::iterator It; typedef C::const_iterator CIt;

// how a bad iterator comes about
enum How { H_SINGULAR, H_FOREIGN, H_DEAD, H_ERASE, H_POP, H_PUSH_OVER, H_CLEAR, H_SETCAP, H_ASSIGN, H_SWAP, H_INSERT, H_RINSERT, H_ROTATE, H_LINEARIZE, H_COPYASSIGN, H_RERASE, H_RESIZE, H_MOVEASSIGN, H_RSETCAP, H_ERASE_RANGE, H_INSERT_OVER, H_RINSERT_OVER, H_ASSIGN_RANGE, H_ERASE_N, H_COUNT };
static const char* const hows[] = { "uninitialized", "foreign", "of a destroyed buffer", "erase", "pop", "overwriting push", "clear", "set_capacity", "assign", "swap", "insert", "rinsert", "rotate", "linearize", "copy assignment", "rerase", "resize", "move assignment", "rset_capacity", "erase(range)", "overwriting insert", "overwriting rinsert", "assign(range)", "erase_begin/end" };
// uses of an iterator
enum Use { U_DEREF, U_ARROW, U_PREINC, U_POSTINC, U_PREDEC, U_POSTDEC, U_PLUSEQ, U_MINUSEQ, U_PLUS, U_MINUS, U_NPLUS, U_INDEX, U_PLUSNEG, U_MINUSNEG, U_DIFF, U_RDIFF, U_EQ, U_REQ, U_NE, U_RNE, U_LT, U_RLT, U_GT, U_GE, U_LE, U_DIFFS, U_LTS,
    U_CDEREF, U_CPREINC, U_CPREDEC, U_CPLUS, U_CDIFF, U_CEQ, U_MIXEQ,
    U_ERASE, U_ERASE_F, U_ERASE_L, U_RERASE, U_RERASE_F, U_RERASE_L, U_ERASE_2, U_RERASE_2, U_INSERT, U_INSERT_R, U_INSERT_D, U_INSERT_N, U_INSERT_RANGE, U_RINSERT, U_RINSERT_R, U_RINSERT_D, U_RINSERT_N, U_RINSERT_RANGE, U_ROTATE, U_COUNT };
static const char* const uses[] = { "*it", "it->", "++it", "it++", "--it", "it--", "it+=n", "it-=n", "it+n", "it-n", "n+it", "it[n]", "it+=-n", "it-=-n", "it-begin", "begin-it", "it==begin", "begin==it", "it!=begin", "begin!=it", "it<begin", "begin<it", "it>begin", "it>=begin", "it<=begin", "it-uninitialized", "it<uninitialized",
    "*cit", "++cit", "--cit", "cit+n", "cit-cbegin", "cit==cbegin", "cit==begin",
    "erase(it)", "erase(it,end)", "erase(begin,it)", "rerase(it)", "rerase(it,end)", "rerase(begin,it)", "erase(it,it)", "rerase(it,it)", "insert(it,v)", "insert(it,&&)", "insert(it)", "insert(it,n,v)", "insert(it,f,l)", "rinsert(it,v)", "rinsert(it,&&)", "rinsert(it)", "rinsert(it,n,v)", "rinsert(it,f,l)", "rotate(it)" };
// kinds
enum Kind { K_FRONT, K_CFRONT, K_BACK, K_CBACK, K_POPB, K_POPF, K_IDX, K_CIDX, K_ENDUSE, K_BEFORE, K_PAST, K_BADIT, K_REV_ERASE, K_REV_RERASE, K_REV_SRC, K_ERASE_N, K_CAP_N, K_CTRL, K_REVERSE_IT, K_COUNT };
static const char* const kinds[] = { "front()", "const front()", "back()", "const back()", "pop_back()", "pop_front()", "[]", "const []", "use of end()", "moving before begin()", "moving past end()", "use of a bad iterator", "reversed erase range", "reversed rerase range", "reversed source range", "erase_begin/end(n)", "capacity below n", "capacity_control", "reverse iterator" };

const int NP = 9;
const char* const pnames[] = { "cap", "off", "size", "kind", "how", "use", "a", "b", "legal" };
static std::string num(unsigned v) { char b[24]; snprintf(b, sizeof b, "%u", v); return b; }
std::string describe(const PCase& c) {
    unsigned k = c.p[3] % K_COUNT; std::string s = kinds[k];
    if (k == K_BADIT) s += std::string(": ") + uses[c.p[5] % U_COUNT] + ", bad through " + hows[c.p[4] % H_COUNT];
    if (k == K_ENDUSE) s += std::string(": ") + uses[c.p[5] % U_COUNT];
    return s + (c.p[8] % 3 == 1 ? " (legal neighbour)" : "");
}
const char* tag_of(const PCase&) { return "MISUSE"; }
bool nontrivial(const PCase& c) { unsigned cap = c.p[0] % 40; return cap > 0; }

static void gencase(Rng& r, PCase& c) {
    c.p[0] = r.below(4) ? r.below(7) : r.below(24);
    c.p[1] = c.p[0] ? r.below(c.p[0]) : 0;
    c.p[2] = r.below(3) ? r.below(c.p[0] + 1) : c.p[0];
    c.p[3] = r.below(2) ? K_BADIT : r.below(K_COUNT);
    c.p[4] = r.below(H_COUNT); c.p[5] = r.below(U_COUNT); c.p[6] = r.below(4) ? r.below(8) : (unsigned)r.next(); c.p[7] = r.below(4) ? r.below(8) : (unsigned)r.next(); c.p[8] = r.below(3);
}
void gen(Rng& r, PCase& c) { gencase(r, c); }
static bool step(PCase& c, int i, unsigned lim) { if (c.p[i] < lim) { ++c.p[i]; return true; } c.p[i] = 0; return false; }
bool enum_next(PCase& c, bool first, unsigned maxcap) {
    if (first) return true;
    unsigned k = c.p[3];
    if (step(c, 8, 1)) return true;
    if (step(c, 7, 2)) return true;
    if (step(c, 6, 3)) return true;
    if (step(c, 5, k == K_BADIT || k == K_ENDUSE ? U_COUNT - 1 : 0)) return true;
    if (step(c, 4, k == K_BADIT ? H_COUNT - 1 : k == K_BEFORE || k == K_PAST || k == K_REV_SRC || k == K_CAP_N || k == K_REVERSE_IT ? 11 : 0)) return true;
    if (step(c, 3, K_COUNT - 1)) return true;
    if (step(c, 2, c.p[0])) return true;
    if (step(c, 1, c.p[0] ? c.p[0] - 1 : 0)) return true;
    return step(c, 0, maxcap);
}

struct Snap { size_t size, cap; std::vector<T> v; };
static Snap snap(const C& c) { Snap s; s.size = c.size(); s.cap = (size_t)c.capacity(); for (size_t i = 0; i < c.size(); ++i) s.v.push_back(c[i]); return s; }
static C* make(unsigned cap, unsigned off, unsigned size, int base) {
    C* c = new C(cap);
    for (unsigned i = 0; i < off && cap; ++i) { c->push_back(mk(0)); c->pop_front(); }
    for (unsigned i = 0; i < size; ++i) c->push_back(mk(base + (int)i));
    return c;
}
static volatile size_t sink;
static T src[3] = { mk(901), mk(902), mk(903) };

template <class I, class J> static bool use_it(C& c, I& it, J cit, const I& b, unsigned u, long n) {
    const J cb = const_cast<const C&>(c).begin();
    switch (u) {
    case U_DEREF: sink = sizeof(*it) + (*it == mk(1)); break;
    case U_ARROW: sink = it.operator->() != 0; break;
    case U_PREINC: ++it; break;
    case U_POSTINC: it++; break;
    case U_PREDEC: --it; break;
    case U_POSTDEC: it--; break;
    case U_PLUSEQ: it += n; break;
    case U_MINUSEQ: it -= n; break;
    case U_PLUS: { I t = it + n; sink = t == t; break; }
    case U_MINUS: { I t = it - n; sink = t == t; break; }
    case U_NPLUS: { I t = n + it; sink = t == t; break; }
    case U_INDEX: sink = it[n] == mk(1); break;
    case U_PLUSNEG: it += -n; break;
    case U_MINUSNEG: it -= -n; break;
    case U_DIFF: sink = it - b; break;
    case U_RDIFF: sink = b - it; break;
    case U_EQ: sink = it == b; break;
    case U_REQ: sink = b == it; break;
    case U_NE: sink = it != b; break;
    case U_RNE: sink = b != it; break;
    case U_LT: sink = it < b; break;
    case U_RLT: sink = b < it; break;
    case U_GT: sink = it > b; break;
    case U_GE: sink = it >= b; break;
    case U_LE: sink = it <= b; break;
    case U_DIFFS: { I z; sink = it - z; break; }
    case U_LTS: { I z; sink = it < z; break; }
    case U_CDEREF: sink = *cit == mk(1); break;
    case U_CPREINC: ++cit; break;
    case U_CPREDEC: --cit; break;
    case U_CPLUS: { J t = cit + n; sink = t == t; break; }
    case U_CDIFF: sink = cit - cb; break;
    case U_CEQ: sink = cit == cb; break;
    case U_MIXEQ: sink = cit == b; break;
    case U_ERASE: c.erase(it); break;
    case U_ERASE_F: c.erase(it, c.end()); break;
    case U_ERASE_L: c.erase(c.begin(), it); break;
    case U_RERASE: c.rerase(it); break;
    case U_RERASE_F: c.rerase(it, c.end()); break;
    case U_RERASE_L: c.rerase(c.begin(), it); break;
    case U_ERASE_2: c.erase(it, it); break;
    case U_RERASE_2: c.rerase(it, it); break;
    case U_INSERT: { const T v = mk(77); c.insert(it, v); break; }
    case U_INSERT_R: c.insert(it, mk(77)); break;
    case U_INSERT_D: c.insert(it); break;
    case U_INSERT_N: c.insert(it, (size_t)n, mk(77)); break;
    case U_INSERT_RANGE: c.insert(it, src, src + n); break;
    case U_RINSERT: { const T v = mk(77); c.rinsert(it, v); break; }
    case U_RINSERT_R: c.rinsert(it, mk(77)); break;
    case U_RINSERT_D: c.rinsert(it); break;
    case U_RINSERT_N: c.rinsert(it, (size_t)n, mk(77)); break;
    case U_RINSERT_RANGE: c.rinsert(it, src, src + n); break;
    case U_ROTATE: c.rotate(it); break;
    }
    return true;
}

static bool needs_elem(unsigned u) { return u == U_DEREF || u == U_ARROW || u == U_PREINC || u == U_POSTINC || u == U_CDEREF || u == U_CPREINC || u == U_ERASE || u == U_RERASE || u == U_ROTATE; }

void run(const PCase& p) {
    const unsigned cap = p.p[0] % 40, off = cap ? p.p[1] % (cap + 1) : 0, size = p.p[2] % (cap + 1), kind = p.p[3] % K_COUNT, how = p.p[4], use = p.p[5] % U_COUNT;
    const bool legal = p.p[8] % 3 == 1;
    const unsigned a = p.p[6], b = p.p[7];
    // heap objects, deliberately leaked when the assertion jumps out; the worker process is renewed regularly
    C* c = make(cap, off, size, 100);
    const C* cc = c;
    C* other = make(cap, off, size, 100);
    It* it = new It; CIt* cit = new CIt;
    bool expect = true;     // an assertion is expected
    Snap s = snap(*c);
    armed = 0; fired = 0;
    C* target = c;          // the container whose content must not change
    static char destroyed[sizeof(C)] __attribute__((aligned(16)));
    if (setjmp(jb) == 0) {
        switch (kind) {
        case K_FRONT: if (size) expect = false; armed = expect; sink = c->front() == mk(1); break;
        case K_CFRONT: if (size) expect = false; armed = expect; sink = cc->front() == mk(1); break;
        case K_BACK: if (size) expect = false; armed = expect; sink = c->back() == mk(1); break;
        case K_CBACK: if (size) expect = false; armed = expect; sink = cc->back() == mk(1); break;
        case K_POPB: if (size) expect = false; armed = expect; c->pop_back(); break;
        case K_POPF: if (size) expect = false; armed = expect; c->pop_front(); break;
        case K_IDX: case K_CIDX: {
            size_t i = legal && size ? a % size : a % 4 == 0 ? (size_t)-1 - b : size + a % 5;
            expect = i >= size; armed = expect;
            if (kind == K_IDX) sink = (*c)[i] == mk(1); else sink = (*cc)[i] == mk(1);
            break; }
        case K_ENDUSE: {
            *it = c->end(); *cit = cc->end();
            long n = 1 + (long)(a % 3);
            bool isbad = needs_elem(use) || use == U_PLUSEQ || use == U_PLUS || use == U_NPLUS || use == U_CPLUS || use == U_INDEX || use == U_MINUSNEG || use == U_DIFFS || use == U_LTS;
            if (use == U_MINUSEQ || use == U_MINUS || use == U_PLUSNEG) { isbad = n > (long)size; }
            if (use == U_PREDEC || use == U_POSTDEC || use == U_CPREDEC) isbad = size == 0;
            expect = isbad; armed = expect;
            It bg = c->begin();
            use_it<It, CIt>(*c, *it, *cit, bg, use, n);
            break; }
        case K_BEFORE: case K_PAST: {
            size_t i = size ? a % (size + 1) : 0; // a position
            *it = c->begin() + (long)i; *cit = cc->begin() + (long)i;
            long room = kind == K_BEFORE ? (long)i : (long)(size - i);
            long n = legal ? (room ? (long)(b % (room + 1)) : 0) : room + 1 + (long)(b % 3);
            if (!legal && b % 5 == 4) n = room + 1 + (long)(b % 1000);
            expect = n > room; armed = expect;
            long d = kind == K_BEFORE ? -n : n;
            switch (how % 8) {
            case 0: *it += d; break;
            case 1: *it -= -d; break;
            case 2: { It t = *it + d; sink = t == *it; break; }
            case 3: { It t = *it - (-d); sink = t == *it; break; }
            case 4: { CIt t = *cit + d; sink = t == *cit; break; }
            case 5: { for (long k = 0; k < n; ++k) { if (d < 0) --*it; else ++*it; } break; }
            case 6: { for (long k = 0; k < n; ++k) { if (d < 0) (*cit)--; else (*cit)++; } break; }
            default: { It t = d + *it; sink = t == *it; break; }
            }
            break; }
        case K_BADIT: {
            unsigned h = how % H_COUNT;
            long n = (long)((a + 1) % 3); // zero included: also then the iterator has to be valid
            if (h == H_SINGULAR && !n) n = 1; // adding zero to an uninitialized iterator is not claimed
            size_t i = size ? a % size : 0, len = size;
            if (h == H_SINGULAR) { }
            else if (h == H_FOREIGN) { if (use < U_DIFF || use == U_CPLUS || use == U_CDEREF || use == U_CPREINC || use == U_CPREDEC) goto finish_ok; // legal for its own buffer
                if (a % 3 == 2) { *it = other->end(); *cit = ((const C*)other)->end(); } else { *it = other->begin() + (long)i; *cit = ((const C*)other)->begin() + (long)i; } }
            else if (h == H_DEAD) {
                C* dead = new (destroyed) C(cap);
                for (unsigned k = 0; k < size; ++k) dead->push_back(mk(5));
                *it = dead->begin() + (long)(b % 2 ? i : len); *cit = ((const C*)dead)->begin() + (long)i;
                dead->~C();
                if (b % 2) { target = new (destroyed) C(cap); for (unsigned k = 0; k < size; ++k) target->push_back(mk(100 + (int)k)); }
            }
            else {
                // an iterator the named operation invalidates
                bool can = len > 0; size_t at = i; bool done = false;
                if (can) {
                    *it = c->begin() + (long)i; *cit = cc->begin() + (long)i;
                    switch (h) {
                    case H_ERASE: c->erase(c->begin() + (long)(b % (at + 1))); done = true; break;   // shifts what follows
                    case H_RERASE: c->rerase(c->begin() + (long)(at + b % (len - at))); done = true; break; // shifts what precedes
                    case H_POP: *it = b % 2 ? c->begin() : c->end() - 1; *cit = *it; if (b % 2) c->pop_front(); else c->pop_back(); done = true; break;
                    case H_PUSH_OVER: if (c->full()) { *it = b % 2 ? c->begin() : c->end() - 1; *cit = *it; if (b % 2) c->push_back(mk(1)); else c->push_front(mk(1)); done = true; } break;
                    case H_CLEAR: c->clear(); done = true; break;
                    case H_SETCAP: c->set_capacity(cap + 1 + b % 3); done = true; break;
                    case H_RSETCAP: c->rset_capacity(b % 2 ? cap + 1 : len - 1); done = true;
                        break;
                    case H_ASSIGN: c->assign(1 + b % 3, mk(4)); done = true; break;
                    case H_ASSIGN_RANGE: c->assign(src, src + 1 + b % 3); done = true; break;
                    case H_SWAP: c->swap(*other); done = true; break;
                    case H_INSERT: if (!c->full()) { c->insert(c->begin() + (long)(b % (at + 1)), mk(3)); done = true; } break;
                    case H_RINSERT: if (!c->full()) { c->rinsert(c->begin() + (long)(at + 1 + b % (len - at)), mk(3)); done = true; } break;
                    case H_INSERT_OVER: if (c->full() && len > 1) { *it = c->begin(); *cit = *it; c->insert(c->begin() + (long)(1 + b % len), mk(3)); done = true; } break;
                    case H_RINSERT_OVER: if (c->full() && len > 1) { *it = c->end() - 1; *cit = *it; c->rinsert(c->begin() + (long)(b % len), mk(3)); done = true; } break;
                    case H_ROTATE: if (!CONT && !c->full() && len > 1) { // the elements actually moved are invalidated
                            size_t k = 1 + b % (len - 1); size_t front = k, backn = len - k; (void)backn;
                            if (len - k >= k) { *it = c->begin() + (long)(a % front); } else { *it = c->begin() + (long)(k + a % (len - k)); }
                            *cit = *it; c->rotate(c->begin() + (long)k); done = true; } break;
                    case H_LINEARIZE: if (!c->is_linearized()) { c->linearize(); done = true; } break;
                    case H_COPYASSIGN: { C* o2 = make(3, 1, 2, 50); *c = *o2; done = true; break; }
                    case H_MOVEASSIGN: { C* o2 = make(3, 1, 2, 50); *c = boost::move(*o2); done = true; break; }
                    case H_RESIZE: if (b % 2) { c->resize(i); } else { c->rresize(len - 1 - i); } done = true; break;
                    case H_ERASE_RANGE: c->erase(c->begin() + (long)(b % (at + 1)), c->begin() + (long)at + 1); done = true; break;
#if !CONT
                    case H_ERASE_N: if (b % 2) { c->erase_begin(at + 1); } else { c->erase_end(len - at); } done = true; break;
#endif
                    default: break;
                    }
                }
                if (!done) goto finish_ok; // the operation does not apply in this state
            }
            // equality with another uninitialized iterator is legal and not used here
            s = snap(*target);
            if (h == H_DEAD && b % 2 == 0) {
                target = c; s = snap(*c);
            }
            armed = 1;
            It bg = target->begin();
            use_it<It, CIt>(*target, *it, *cit, bg, use, n);
            break; }
        case K_REV_ERASE: case K_REV_RERASE: {
            if (!size) goto finish_ok;
            size_t x = a % (size + 1), y = b % (size + 1);
            if (legal ? x > y : x < y) std::swap(x, y);
            if (!legal && x == y) { if (x < size) ++x; else --y; }
            expect = x > y; armed = expect;
            It f = c->begin() + (long)x, l = c->begin() + (long)y;
            if (kind == K_REV_ERASE) c->erase(f, l); else c->rerase(f, l);
            break; }
        case K_REV_SRC: {
            unsigned n = 1 + a % 3; const T* f = legal ? src : src + n; const T* l = legal ? src + n : src;
            std::vector<T> vec(src, src + 3); std::vector<T>::iterator vf = vec.begin() + (legal ? 0 : n), vl = vec.begin() + (legal ? n : 0);
            expect = !legal; armed = expect;
            size_t i = size ? b % (size + 1) : 0; It pos = c->begin() + (long)i;
            switch (how % 10) {
            case 0: { C* q = new C(f, l); sink = q->size(); break; }
            case 1: { C* q = new C(8, f, l); sink = q->size(); break; }
            case 2: c->assign(f, l); break;
            case 3: c->assign(8, f, l); break;
            case 4: c->insert(pos, f, l); break;
            case 5: c->rinsert(pos, f, l); break;
            case 6: c->insert(pos, vf, vl); break;
            case 7: c->assign(vf, vl); break;
            case 8: { C* q = new C(2, vf, vl); sink = q->size(); break; }
            default: c->rinsert(pos, vf, vl); break;
            }
            break; }
        case K_ERASE_N: {
#if CONT
            goto finish_ok;
#else
            size_t n = legal ? (size ? b % (size + 1) : 0) : b % 7 == 6 ? (size_t)-1 : size + 1 + b % 3;
            expect = n > size; armed = expect;
            if (a & 1) c->erase_begin(n); else c->erase_end(n);
            break;
#endif
        }
        case K_CAP_N: {
            size_t n = 1 + a % 5, k = legal ? n + b % 3 : b % n;
            expect = k < n; armed = expect;
            switch (how % 4) {
            case 0: { C* q = new C(k, n, mk(3)); sink = q->size(); break; }
            case 1: c->assign(k, n, mk(3)); break;
#if ELEMNAME != E_STR
            case 2: { C* q = new C(k, (int)n, 3); sink = q->size(); break; }
            default: c->assign(k, (int)n, 3); break;
#else
            case 2: { C* q = new C(k, n, mk(4)); sink = q->size(); break; }
            default: c->assign(k, n, mk(4)); break;
#endif
            }
            break; }
        case K_CTRL: {
            size_t k = a % 9, m = b % 9;
            expect = k < m; armed = expect;
            typedef boost::circular_buffer_space_optimized<T>::capacity_type CT;
            CT* q = new CT(k, m); sink = q->capacity();
            break; }
        case K_REVERSE_IT: {
            // *rend() is a decrement before begin(), ++rend() too
            C::reverse_iterator* r = new C::reverse_iterator(legal ? c->rbegin() : c->rend());
            if (legal && !size) goto finish_ok;
            expect = !legal; armed = expect;
            if (how % 2) sink = **r == mk(1); else ++*r;
            break; }
        }
        armed = 0;
        if (expect) bad("%s: no assertion was triggered", describe(p).c_str());
    finish_ok:
        delete it; delete cit; it = 0;
        if (target == (C*)destroyed) target->~C();
        delete other; delete c;
        return;
    }
    // the assertion fired
    armed = 0;
    if (!expect) bad("%s: asserted although the use is correct: %s", describe(p).c_str(), where);
    if (target->size() != s.size) bad("%s: asserted only after the size changed from %zu to %zu", describe(p).c_str(), s.size, (size_t)target->size());
    if ((size_t)target->capacity() != s.cap) bad("%s: asserted only after the capacity changed", describe(p).c_str());
    for (size_t i = 0; i < s.size; ++i) if (!((*target)[i] == s.v[i])) bad("%s: asserted only after element %zu was modified", describe(p).c_str(), i);
}
