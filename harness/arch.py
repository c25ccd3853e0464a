# C25: generates programs (element types x operations x build settings), compiles and runs them, shrinks a failing one.
import os, random, subprocess, hashlib, itertools

# element types taken as they are: (type, headers, mk(x), val(e), default or None, eq, lt, copyable, minimal standard)
LIB = [
 ('int', '', 'x', 'e', '0', 1, 1, 1, 3), ('bool', '', '(x & 1) != 0', 'e', '0', 1, 1, 1, 3), ('char', '', '(char)x', 'e', '0', 1, 1, 1, 3),
 ('signed char', '', '(signed char)x', 'e', '0', 1, 1, 1, 3), ('unsigned short', '', '(unsigned short)x', 'e', '0', 1, 1, 1, 3), ('long long', '', '(long long)x << 40', '(int)(e >> 40)', '0', 1, 1, 1, 3),
 ('float', '', '(float)x', '(int)e', '0', 1, 1, 1, 3), ('double', '', 'x * 0.5', '(int)(e * 2)', '0', 1, 1, 1, 3), ('long double', '', '(long double)x', '(int)e', '0', 1, 1, 1, 3), ('wchar_t', '', '(wchar_t)x', '(int)e', '0', 1, 1, 1, 3),
 ('__int128', '', '(__int128)x << 90', '(int)(e >> 90)', '0', 1, 1, 1, 11),
 ('const int*', '@static int g_ints[200];', 'g_ints + x', 'e ? (int)(e - g_ints) : 0', '0', 1, 1, 1, 3), ('void*', '@static int g_ints[200];', '(void*)(g_ints + x)', 'e ? (int)((int*)e - g_ints) : 0', '0', 1, 1, 1, 3),
 ('Enum', '@enum Enum { EA, EB = 1000 };', '(Enum)x', '(int)e', '0', 1, 1, 1, 3), ('EnumC', '@enum class EnumC : short { A };', '(EnumC)x', '(int)e', '0', 1, 1, 1, 11),
 ('FnP', '@static void fa() {} static void fb() {} typedef void (*FnP)();', '(x & 1) ? &fa : &fb', 'e == 0 ? -1 : e == &fa ? 1 : 2', '-1', 1, 0, 1, 3),
 ('MemP', '@struct HasM { int a, b; }; typedef int HasM::*MemP;', '(x & 1) ? &HasM::a : &HasM::b', 'e == 0 ? -1 : e == &HasM::a ? 1 : 2', '-1', 1, 0, 1, 3),
 ('std::string', '#include <string>', 'std::string(30, (char)x)', 'e.empty() ? 0 : (e.size() == 30 ? (int)e[0] : -9)', '0', 1, 1, 1, 3),
 ('PairT', '#include <string>\n@typedef std::pair<int, std::string> PairT;', 'PairT(x, std::string(x, 120))', 'e.first == (int)e.second.size() ? e.first : -9', '0', 1, 1, 1, 3),
 ('std::vector<int>', '#include <vector>', 'std::vector<int>(2, x)', 'e.empty() ? 0 : e.size() == 2 ? e[0] : -9', '0', 1, 1, 1, 3),
 ('boost::circular_buffer<int>', '', 'boost::circular_buffer<int>(3, x)', 'e.empty() ? 0 : e.size() == 3 && e.capacity() == 3 ? e[1] : -9', '0', 1, 1, 1, 3),
 ('boost::circular_buffer_space_optimized<int>', '', 'boost::circular_buffer_space_optimized<int>(boost::circular_buffer_space_optimized<int>::capacity_type(3), 2u, x)', 'e.empty() ? 0 : e.size() == 2 ? e[1] : -9', '0', 1, 1, 1, 3),
 ('CBIt', '@static boost::circular_buffer<int> g_cb(200, 7); typedef boost::circular_buffer<int>::iterator CBIt;', 'g_cb.begin() + x', '(int)(e - g_cb.begin())', None, 1, 1, 1, 3),
 ('std::complex<double>', '#include <complex>', 'std::complex<double>(x, -x)', '(int)e.real() == -(int)e.imag() ? (int)e.real() : -9', '0', 1, 0, 1, 3),
 ('Agg', '@struct Agg { int a; char b; double c; };', 'mkagg(x)', 'e.b == (char)e.a && e.c == e.a ? e.a : -9', '0', 0, 0, 1, 3),
 ('Uni', '@union Uni { int a; float f; };', 'mkuni(x)', 'e.a', '0', 0, 0, 1, 3),
 ('ArrM', '@struct ArrM { int a[5]; ArrM() { for (int i = 0; i < 5; ++i) a[i] = i; } };', 'mkarr(x)', 'e.a[4] - 4 == e.a[0] ? e.a[0] : -9', '0', 0, 0, 1, 3),
 ('Big', '@struct Big { int a; char pad[3000]; explicit Big(int x) : a(x) { pad[0] = pad[2999] = (char)x; } };', 'Big(x)', 'e.pad[0] == (char)e.a && e.pad[2999] == (char)e.a ? e.a : -9', None, 0, 0, 1, 3),
 ('Empty', '@struct Empty {};', 'Empty()', '(void(e), 1)', '1', 0, 0, 1, 3),
 ('std::unique_ptr<int>', '#include <memory>', 'std::unique_ptr<int>(new int(x))', 'e ? *e : 0', '0', 1, 1, 0, 11), ('std::shared_ptr<int>', '#include <memory>', 'std::make_shared<int>(x)', 'e ? *e : 0', '0', 0, 0, 1, 11),
 ('std::function<int()>', '#include <functional>', 'mkfn(x)', 'e ? e() : 0', '0', 0, 0, 1, 11), ('std::array<int, 3>', '#include <array>', 'std::array<int, 3>{{x, x, x}}', 'e[0] == e[2] ? e[0] : -9', '0', 1, 1, 1, 11),
 ('std::reference_wrapper<int>', '#include <functional>\n@static int g_ints[200];', 'std::ref(g_ints[x])', '(int)(&e.get() - g_ints)', None, 0, 0, 1, 11),
 ('TupT', '#include <tuple>\n#include <string>\n@typedef std::tuple<int, std::string, char> TupT;', 'TupT(x, "abc", 1)', 'std::get<0>(e) == 0 || std::get<1>(e) == "abc" ? std::get<0>(e) : -9', '0', 1, 1, 1, 11),
 ('std::chrono::milliseconds', '#include <chrono>', 'std::chrono::milliseconds(x)', '(int)e.count()', '0', 1, 1, 1, 11), ('std::thread::id', '#include <thread>', '(void(x), std::thread::id())', '(void(e), 1)', '1', 1, 0, 1, 11),
 ('std::optional<int>', '#include <optional>', 'std::optional<int>(x)', 'e ? *e : 0', '0', 1, 1, 1, 17), ('std::any', '#include <any>', 'std::any(x)', 'e.has_value() ? std::any_cast<int>(e) : 0', '0', 0, 0, 1, 17),
 ('VarT', '#include <variant>\n#include <string>\n@typedef std::variant<int, std::string> VarT;', '(x & 1) ? VarT(x) : VarT(std::string(x, 120))', 'e.index() ? (int)std::get<1>(e).size() : std::get<0>(e)', '0', 1, 1, 1, 17),
 ('std::string_view', '#include <string_view>\n@static const char g_txt[] = "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789";', 'std::string_view(g_txt, x)', '(int)e.size()', '0', 1, 1, 1, 17),
 ('std::pmr::string', '#include <memory_resource>\n#include <string>', 'std::pmr::string(30, (char)x)', 'e.empty() ? 0 : (e.size() == 30 ? (int)e[0] : -9)', '0', 1, 1, 1, 17),
 ('PmrV', '#include <memory_resource>\n#include <vector>\n#include <string>\n@typedef std::pmr::vector<std::pmr::string> PmrV;', 'PmrV(2, std::pmr::string(30, (char)x))', 'e.empty() ? 0 : e.size() == 2 && e[1].size() == 30 ? (int)e[1][3] : -9', '0', 1, 1, 1, 17),
 ('BMov', '#include <boost/move/move.hpp>\n@class BMov { int v; BOOST_COPYABLE_AND_MOVABLE(BMov) public: explicit BMov(int x) : v(x) {} int get() const { return v; } BMov(const BMov& o) : v(o.v) {} BMov(BOOST_RV_REF(BMov) o) : v(o.v) { o.v = -5; } BMov& operator=(BOOST_COPY_ASSIGN_REF(BMov) o) { v = o.v; return *this; } BMov& operator=(BOOST_RV_REF(BMov) o) { v = o.v; o.v = -5; return *this; } };', 'BMov(x)', 'e.get()', None, 0, 0, 1, 3),
 ('BOnly', '#include <boost/move/move.hpp>\n@class BOnly { int v; BOOST_MOVABLE_BUT_NOT_COPYABLE(BOnly) public: BOnly() : v(77) {} explicit BOnly(int x) : v(x) {} int get() const { return v; } BOnly(BOOST_RV_REF(BOnly) o) BOOST_NOEXCEPT : v(o.v) { o.v = -5; } BOnly& operator=(BOOST_RV_REF(BOnly) o) BOOST_NOEXCEPT { v = o.v; o.v = -5; return *this; } };', 'BOnly(x)', 'e.get()', '77', 0, 0, 0, 11),
 ('std::byte', '#include <cstddef>', '(std::byte)x', '(int)e', '0', 1, 1, 1, 17),
]
HELP = {'mkagg': 'static inline Agg mkagg(int x) { Agg a; a.a = x; a.b = (char)x; a.c = x; return a; }', 'mkuni': 'static inline Uni mkuni(int x) { Uni u; u.a = x; return u; }',
        'mkarr': 'static inline ArrM mkarr(int x) { ArrM a; for (int i = 0; i < 5; ++i) a.a[i] = x + i; return a; }', 'mkfn': 'static inline std::function<int()> mkfn(int x) { return [x] { return x; }; }'}

COMMON = ['popb', 'popf', 'era', 'rera', 'erar', 'rerar', 'clr', 'setc', 'rsetc', 'move', 'swp', 'lin', 'rot', 'read', 'algo', 'pbm', 'pfm', 'insm', 'rinsm']
PLAIN_ONLY = ['eb', 'ee']
NEED_COPY = ['pbc', 'pfc', 'insc', 'insn', 'rinsc', 'rinsn', 'insr', 'rinsr', 'insi', 'rinsi', 'res', 'rres', 'asn', 'ascn', 'asr', 'asi', 'ascr', 'asci', 'ctorn', 'ctorr', 'ctori', 'ctorcr', 'ctorci', 'copy']
NEED_DEF = ['pbd', 'pfd', 'insd', 'rinsd']
NEED_COPY_DEF = ['resd', 'rresd']
MOVE_RANGE = ['insi', 'rinsi', 'asi', 'asci', 'ctori', 'ctorci']  # single-pass sources of values work for move-only elements

FEATS = ['def', 'explicit', 'eq', 'lt', 'final', 'virtual', 'dtor', 'selfptr', 'align', 'payload', 'comma', 'opnew', 'greedy', 'conv', 'byval', 'trivial', 'move_noexcept', 'move_throw', 'nocopy', 'base', 'chatty', 'oddassign', 'adl', 'refq', 'dtorthrow', 'ilist', 'open', 'greedyas', 'amp', 'boolish']

def gen_type(r, std):
    """a random type: ('lib', index) or ('gen', {features})"""
    if r.random() < 0.4:
        c = [i for i, t in enumerate(LIB) if t[8] <= std or std >= t[8]]
        return ('lib', r.choice([i for i in c if LIB[i][8] <= std]))
    f = {x for x in FEATS if r.random() < 0.3}
    return ('gen', legal(f, std))

def legal(f, std):
    f = set(f)
    if std == 3:
        f -= {'final', 'refq', 'ilist', 'greedyas', 'dtorthrow', 'align', 'move_noexcept', 'move_throw', 'nocopy', 'greedy'}
    if 'nocopy' in f:
        f -= {'move_throw', 'byval', 'trivial', 'oddassign', 'dtorthrow'}; f.add('move_noexcept')  # a throwing destructor makes the move a throwing one
    if 'move_noexcept' in f:
        f.discard('move_throw')
    if 'trivial' in f:
        f -= {'move_noexcept', 'move_throw', 'byval', 'dtor', 'selfptr', 'virtual', 'oddassign'}
    if 'byval' in f:
        f -= {'oddassign'}
    if 'selfptr' in f:
        f.discard('trivial')
    if 'open' in f:
        f.discard('greedy')
    if 'oddassign' in f or 'byval' in f:
        f.discard('greedyas')
    if std < 17:
        f.discard('align')
    if 'dtorthrow' in f:
        f -= {'trivial', 'base'}; f.add('dtor')
    if 'virtual' in f:
        f.add('dtor'); f.discard('opnew')
    return frozenset(f)

def caps(t):
    if t[0] == 'lib':
        x = LIB[t[1]]; return dict(d=x[4] is not None, eq=x[5], lt=x[6], copy=x[7])
    f = t[1]
    return dict(d='def' in f, eq='eq' in f, lt='lt' in f, copy='nocopy' not in f)

NO_PMR = {'swp', 'move', 'ctorn', 'ctorr', 'ctori', 'ctorcr', 'ctorci'}  # polymorphic_allocator is not assignable

def ops_for(t, cont, std):
    return [x for x in ops_all(t, cont % 2, std) if cont < 2 or x not in NO_PMR]

def ops_all(t, cont, std):
    c = caps(t)
    o = list(COMMON) + (PLAIN_ONLY if cont == 0 else [])
    if c['copy']: o += NEED_COPY
    else: o += MOVE_RANGE
    if c['d']: o += NEED_DEF + (NEED_COPY_DEF if c['copy'] else [])
    if c['eq'] and c['copy']: o.append('eq')
    if c['lt'] and c['copy']: o.append('lt')
    return o

def type_text(k, t, std):
    """-> (headers, declarations, type name, Ty specialisation)"""
    if t[0] == 'lib':
        n, h, mk, va, de = LIB[t[1]][:5]
        hs = [l for l in h.split('\n') if l.startswith('#')]; ds = [l[1:] for l in h.split('\n') if l.startswith('@')]
        ds += [HELP[x] for x in HELP if x + '(' in mk]
        norm = 'val(mk(x))'
    else:
        f = t[1]; n = 'G%d' % k; hs, ds = [], []
        ns = lambda x: 'namespace n%s { %s }' % (n, x) if 'adl' in f else x
        b = []
        cx = std >= 11
        kw = 'explicit ' if 'explicit' in f else ''
        init = 'v(x)' + (', self(this)' if 'selfptr' in f else '')
        if 'opnew' in f:
            b.append(('static void* operator new(std::size_t) = delete; static void* operator new(std::size_t, void*) = delete; static void operator delete(void*) = delete;' if cx else
                      'private: static void* operator new(std::size_t); static void* operator new(std::size_t, void*); static void operator delete(void*); public:') + ' // the storage is never obtained through the class')
        if 'comma' in f:
            b.append('template <class U> void operator,(const U&) const = delete;' if cx else 'private: template <class U> void operator,(const U&) const; public:')
        if 'amp' in f: # its address is not taken with &
            b.append('void operator&() const = delete;' if cx else 'private: void operator&() const; public:')
        if 'greedy' in f:
            b.append('template <class U> explicit %s(const U&) = delete;' % n)
        if 'greedyas' in f:
            b.append('template <class U> %s& operator=(const U&) = delete;' % n)
        if 'open' in f: # everything converts to it
            b.append('template <class U> %s(const U&) : v(-98)%s {}' % (n, ', self(this)' if 'selfptr' in f else ''))
        if 'ilist' in f: # T{t} is not a copy of t
            b.append('%s(std::initializer_list<%s>) : v(-97)%s {}' % (n, n, ', self(this)' if 'selfptr' in f else ''))
        if 'conv' in f:
            b.append('operator int() const { return v; }' if not ('eq' in f or 'lt' in f) else 'operator const void*() const { return 0; }')
        if 'align' in f:
            b.append('alignas(64) char al;')
        if 'payload' in f:
            b.append('char pad[100];')
        b.append('int v;')
        if 'selfptr' in f:
            b.append('const void* self;')
        b.append('%s%s(int x) : %s {}' % (kw, n, init))
        if 'def' in f:
            b.append('%s() : %s {}' % (n, init.replace('v(x)', 'v(77)')))
        if 'trivial' not in f:
            ci = 'v(o.v)' + (', self(this)' if 'selfptr' in f else '')
            if 'nocopy' not in f:
                b.append('%s(const %s& o) : %s {}' % (n, n, ci))
                if 'byval' in f:
                    b.append('%s& operator=(%s o) { v = o.v; return *this; }' % (n, n))
                else:
                    b.append('%s& operator=(const %s& o)%s { v = o.v; return *this; }' % (n, n, ' &' if 'refq' in f else ''))
                    if 'oddassign' in f:
                        b.append('%s& operator=(int x) { v = x + 1; return *this; }' % n)
            elif cx:
                b.append('%s(const %s&) = delete; %s& operator=(const %s&) = delete;' % (n, n, n, n))
            if 'move_noexcept' in f or 'move_throw' in f:
                q = ' noexcept' if 'move_noexcept' in f else ''
                b.append('%s(%s&& o)%s : %s { o.v = -5; }' % (n, n, q, ci))
                if 'byval' not in f:
                    b.append('%s& operator=(%s&& o)%s { if (this != boost::addressof(o)) { v = o.v; o.v = -5; } return *this; }' % (n, n, q))
        if 'dtor' in f:
            b.append('%s~%s()%s { v = -3; }' % ('virtual ' if 'virtual' in f else '', n, ' noexcept(false)' if 'dtorthrow' in f else ''))
        if 'chatty' in f:
            b.append('int size() const { return -1; } int begin() const { return 0; } typedef void value_type; typedef void type; typedef void iterator; typedef void pointer;')
        ds.append('struct %s%s%s {\n  %s\n};' % (n, ' final' if 'final' in f else '', ' : std::vector<char>' if 'base' in f else '', '\n  '.join(b)))
        if 'adl' in f: # argument-dependent lookup must not find these
            ds[-1] = 'namespace n%s { struct Tag {}; }\n' % n + ds[-1].replace('struct %s%s' % (n, ' final' if 'final' in f else ''), 'struct %s%s' % (n, ' final' if 'final' in f else ''), 1)
            ds[-1] = ('namespace n%s {\n' % n) + ds[-1].split('\n', 1)[1] + '\n' + '\n'.join(
                'template <%s> void %s(%s);' % (', '.join('class A%d' % i for i in range(k)), nm, ', '.join('const A%d&' % i for i in range(k)))
                for nm, k in (('distance', 2), ('advance', 2), ('move', 1), ('copy', 3), ('fill', 3), ('equal', 3), ('lexicographical_compare', 4), ('min', 2), ('max', 2), ('to_address', 1), ('addressof', 1), ('iter_swap', 2))) + '\n}\nusing n%s::%s;' % (n, n)
        bo = 'bool'
        if 'boolish' in f: # comparisons need not return bool itself
            bo = 'Boo%s' % n; ds.append(ns('struct %s { bool b; %s(bool x) : b(x) {} operator bool() const { return b; } };' % (bo, bo)))
        if 'eq' in f: ds.append(ns('inline %s operator==(const %s& a, const %s& b) { return a.v == b.v; }' % (bo, n, n)))
        if 'lt' in f: ds.append(ns('inline %s operator<(const %s& a, const %s& b) { return a.v < b.v; }' % (bo, n, n)))
        mk = '%s(x)' % n
        va = 'e.self == (const void*)boost::addressof(e) ? e.v : -9' if 'selfptr' in f else 'e.v'
        de = '77' if 'def' in f else None; norm = 'x'
    ty = 'template <> struct Ty<%s > { static %s mk(int x) { return %s; } static int val(const %s& e) { return %s; } static int norm(int x) { return %s; } static int defv() { return %s; } };' % (
        n, n, mk, 'TyA%d' % k, va, norm, de or '0')
    ty = 'typedef %s TyA%d;\n' % (n, k) + ty
    if n in ('std::pmr::string', 'PmrV'):
        ty += '\ntemplate <template <class, class> class B> struct InBuf<B<TyA%d, std::pmr::polymorphic_allocator<TyA%d> >, TyA%d> { static bool ok(const TyA%d& e) { return e.get_allocator().resource() == AlF<std::pmr::polymorphic_allocator<TyA%d> >::get().resource(); } };' % (k, k, k, k, k)
    return hs, ds, n, ty

NO_EXPL = ()
CONTS = ['boost::circular_buffer<%s >', 'boost::circular_buffer_space_optimized<%s >',
         'boost::circular_buffer<%s, std::pmr::polymorphic_allocator<%s > >', 'boost::circular_buffer_space_optimized<%s, std::pmr::polymorphic_allocator<%s > >']

class Prog:
    """build settings and a list of (type, container, operations)"""
    def __init__(self, std, cc, debug, flags, seed, units):
        self.std, self.cc, self.debug, self.flags, self.seed, self.units = std, cc, debug, list(flags), seed, units
    def with_units(self, u):
        return Prog(self.std, self.cc, self.debug, self.flags, self.seed, u)
    def text(self):
        hs, ds, body, seen = ['#include "arch.h"'], [], [], {}
        for t, c, ops in self.units:
            if t not in seen:
                k = len(seen); h, d, n, ty = type_text(k, t, self.std); seen[t] = (k, n)
                hs += [x for x in h if x not in hs]; ds += [x for x in d if x not in ds]; ds.append(ty)
            k, n = seen[t]
            C = CONTS[c].replace('%s', 'TyA%d' % k)
            body.append('  { typedef %s C; static const Ent<TyA%d, C> o[] = { %s };\n    run(o, sizeof o / sizeof *o, %d, "%s of %s"); }' % (
                C, k, ', '.join('{ "%s", &%s<TyA%d, C> }' % (x, x, k) for x in ops), self.seed, ('circular_buffer_space_optimized' if c % 2 else 'circular_buffer') + (' with a memory resource' if c > 1 else ''), n))
            cp = caps(t)
            if self.std >= 11 and c < 2 and cp['copy'] and cp['d'] and len(ops) == len(ops_for(t, c, self.std)) and (self.seed + len(body)) % 3 == 0 and (t[0] == 'gen' or LIB[t[1]][0] not in NO_EXPL):
                ds.append('template class %s;' % C)
        hs = sorted(x for x in hs if x.startswith('#include <')) + (['#include <initializer_list>'] if self.std >= 11 else []) + ['#include "arch.h"']
        return '\n'.join(hs) + '\n' + '\n'.join(ds) + '\nint main() {\n' + '\n'.join(body) + '\n  return 0;\n}\n'
    def args(self):
        return [self.cc, '-std=c++%02d' % self.std, '-w', '-O0'] + (['-DBOOST_CB_ENABLE_DEBUG=1'] if self.debug else []) + self.flags

def gen_prog(r, seed, index=None):
    std = r.choice([3, 11, 17, 17, 20, 14])
    cc = 'clang++' if r.random() < 0.25 else 'g++'
    flags, extra = [], []
    x = r.random()
    if r.random() < 0.1: extra = ['-DBOOST_NO_CXX11_DEFAULTED_FUNCTIONS']
    if x < 0.15: flags = ['-fno-exceptions']
    elif x < 0.25: flags = ['-fno-rtti']
    elif x < 0.35: flags = ['-DNDEBUG', '-O2']
    elif x < 0.55: flags = ['-fsanitize=address,undefined', '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=undefined']
    units = []
    for k in range(3):
        t = gen_type(r, std); c = r.randrange(2)
        if k == 0 and index is not None: # walk over the ready-made types, so that each comes up with each container
            i, c = (index // 2) % len(LIB), index % 2
            if LIB[i][8] > std: std = max(LIB[i][8], 11)
            t = ('lib', i)
        if '-fno-rtti' in flags and t[0] == 'lib' and LIB[t[1]][0] in ('std::any',): continue
        if std >= 17 and '-fno-exceptions' not in flags and r.random() < (0.7 if t[0] == 'lib' and 'mr' in LIB[t[1]][0] else 0.3): c += 2
        o = ops_for(t, c, std); k = r.choice([3, 6, len(o), len(o), len(o)])
        units.append((t, c, sorted(r.sample(o, min(k, len(o))))))
    return Prog(std, cc, r.random() < 0.25, flags + extra, seed % 100000, units)

def plain(p):
    """the same settings with int elements"""
    return p.with_units([(('lib', 0), c, ops_for(('lib', 0), c, p.std)) for c in (0, 1)])

def nontrivial(p):
    return [u for u in p.units if len(u[2]) >= 3 and (u[0][0] == 'gen' or LIB[u[0][1]][0] != 'int')]

def second(tmp, tag):
    # another translation unit of the same program
    f = os.path.join(tmp, tag + '_2.cpp')
    open(f, 'w').write('''#include <boost/circular_buffer_fwd.hpp>
template <class B> int twice(B& b);
int other(boost::circular_buffer<int>& b, boost::circular_buffer_space_optimized<int>& c);
#include <boost/circular_buffer.hpp>
int other(boost::circular_buffer<int>& b, boost::circular_buffer_space_optimized<int>& c) { b.push_back(1); c.push_back(2); return b[0] + c[0] + (b.begin() + 1 == b.end()); }
''')
    return [f]

def execute(p, repo, hdir, tmp, tag, timeout=120):
    """-> None when it holds, else (kind, message)"""
    src, exe = os.path.join(tmp, tag + '.cpp'), os.path.join(tmp, tag)
    open(src, 'w').write(p.text())
    try:
        two = second(tmp, tag) if p.seed % 4 == 1 else []
        c = subprocess.run(p.args() + ['-I' + os.path.join(repo, 'include'), '-I' + hdir, src] + two + ['-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
        if c.returncode:
            if c.returncode < 0 or 'internal compiler error' in c.stdout or 'Killed' in c.stdout or 'out of memory' in c.stdout: raise RuntimeError('compiler failed: ' + c.stdout[-300:])
            e = [l for l in c.stdout.split('\n') if 'error' in l]
            return ('compile', '\n'.join(e[:4]) or c.stdout[:600])
        x = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=1'))
        if x.returncode:
            return ('run', 'exit code %d: %s' % (x.returncode, x.stdout[-900:]))
        return None
    except subprocess.TimeoutExpired:
        return ('timeout', 'compiling or running did not finish')
    finally:
        for f in (src, exe, os.path.join(tmp, tag + '_2.cpp')):
            if os.path.exists(f): os.unlink(f)

def shrink(p, fail, repo, hdir, tmp, tag, budget=60):
    """fewer units, operations, features and settings while it fails in the same way"""
    import time
    end = time.time() + budget; best, msg = p, fail
    def still(q):
        nonlocal best, msg
        if time.time() > end: return False
        try: f = execute(q, repo, hdir, tmp, tag)
        except RuntimeError: return False
        if f and f[0] == fail[0]:
            best, msg = q, f; return True
        return False
    for u in p.units:
        if len(best.units) > 1 and still(best.with_units([u])): break
    q = Prog(best.std, 'g++', False, [], best.seed, best.units)
    if not still(q):
        still(Prog(best.std, best.cc, best.debug, [], best.seed, best.units))
    if len(best.units) == 1:
        def ops(): return best.units[0][2]
        n = max(1, len(ops()) // 2)
        while n >= 1:
            i = 0
            while i < len(ops()) and len(ops()) > 1:
                t, c, o = best.units[0]; cut = o[:i] + o[i + n:]
                if not cut or not still(best.with_units([(t, c, cut)])): i += n
            n //= 2
        t = best.units[0][0]
        if t[0] == 'gen':
            for f in sorted(t[1]):
                t, c, o = best.units[0]; nf = legal(t[1] - {f}, best.std)
                if nf != t[1] and set(o) <= set(ops_for(('gen', nf), c, best.std)): still(best.with_units([(('gen', nf), c, o)]))
    return best, msg

def replay_text(pid, p, fail):
    return '// property %s\n// command %s\n// units %d\n// failed %s: %s\n' % (pid, ' '.join(p.args()), 2 if p.seed % 4 == 1 else 1, fail[0], fail[1].replace('\n', '\n// ')) + p.text()

def replay(path, repo, hdir, tmp):
    cmd = [l for l in open(path) if l.startswith('// command ')][0].split()[2:]
    exe = os.path.join(tmp, 'replay-%d' % os.getpid())
    try:
        c = subprocess.run(cmd + ['-I' + os.path.join(repo, 'include'), '-I' + hdir, path] + (second(tmp, 'r') if '// units 2\n' in open(path) else []) + ['-o', exe])
        if c.returncode: return 1
        r = subprocess.run([exe], timeout=120).returncode
        print('the program ran to completion with exit code %d' % r)
        return 1 if r else 0
    finally:
        if os.path.exists(exe): os.unlink(exe)
