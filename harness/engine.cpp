// Generation, isolation, shrinking and replay of operation-sequence cases (C++17).
#include "core.h"
#include "profiles.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <algorithm>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <vector>

#include "names.inc"
Result* g_res;
unsigned char g_family[OP_COUNT];
int g_trace;

static bool g_fuzz = false;
extern "C" void __sanitizer_print_stack_trace() __attribute__((weak));

unsigned g_want = ~0u;
static const unsigned SKIPPABLE = 1u << T_CONTENT | 1u << T_RET | 1u << T_VIEW | 1u << T_ITER | 1u << T_STRONG | 1u << T_NOTHROW | 1u << T_MOVE
    | 1u << T_STAB | 1u << T_COST | 1u << T_NOALLOC | 1u << T_MEM | 1u << T_CMP | 1u << T_DBGVALID | 1u << T_DBGFILL | 1u << T_CAP;
void fail(int tag, const char* fmt, ...) {
    if (!(g_want >> tag & 1) && (SKIPPABLE >> tag & 1)) return;
    g_res->failed = 1; g_res->tag = tag;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_res->msg, sizeof g_res->msg, fmt, ap);
    va_end(ap);
    if (g_fuzz) { fprintf(stderr, "ORACLE %s op#%d %s: %s\n", tag_names[tag], g_res->op_index, op_names[g_res->op_code], g_res->msg); abort(); }
    if (g_trace) { printf("  FAIL %s: %s\n", tag_names[tag], g_res->msg); fflush(stdout); }
    _exit(77);
}

// ---------------------------------------------------------------- rng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
};
static bool g_big;     // the case being generated has a large buffer: more parameters reach its middle
static unsigned gen_param(Rng& r) {
    if (g_big && r.below(2)) return (unsigned)r.next() & 0x7FFFFFFF;
    switch (r.below(12)) {
    case 0: return 0;
    case 1: return 1;
    case 2: case 3: case 4: case 5: case 6: return r.below(9);
    case 7: case 8: return r.below(40);
    case 9: return (unsigned)r.next();
    case 10: return r.below(200);
    default: return 0xFFFFFFFFu - r.below(4);
    }
}
static unsigned char g_ok[OP_COUNT];
static const Profile* g_prof;
static unsigned gen_cap(Rng& r) {
    if (g_prof->bigcaps && r.below(100) < g_prof->bigcaps) return r.below(8) ? 64 + r.below(400) : r.below(12) ? 464 + r.below(1700) : 2164 + r.below(18000);
    unsigned k = r.below(20);
    if (k < 14) return r.below(8);
    if (k < 18) return 5 + r.below(16);
    return 16 + r.below(60);
}
static std::vector<unsigned short> g_pick;     // weighted op list
static std::vector<unsigned short> g_fampick;  // family ops only

static void setup_profile(const Profile* p) {
    g_prof = p; g_want = p->tags;
    memset(g_ok, 0, sizeof g_ok);
    exec_opmask(g_ok);
    memset(g_family, 0, sizeof g_family);
    g_pick.clear(); g_fampick.clear();
    std::vector<unsigned> w(OP_COUNT, 0);
    for (const Weight& x : p->weights) w[x.op] = x.w;
    for (int f : p->family) g_family[f] = 1;
    for (int i = 1; i < OP_COUNT; ++i) {
        if (!g_ok[i]) continue;
        for (unsigned k = 0; k < w[i]; ++k) g_pick.push_back(i);
        if (g_family[i]) for (unsigned k = 0; k < std::max(1u, w[i]); ++k) g_fampick.push_back(i);
    }
    if (g_pick.empty()) g_pick.push_back(OP_NOP);
}

static Op gen_op(Rng& r, unsigned short code) {
    Op o; memset(&o, 0, sizeof o);
    o.code = code; o.a = gen_param(r); o.b = gen_param(r); o.c = (unsigned)r.next() & 0xFFFF; o.d = (unsigned)r.next() & 0xFFFF;
    if (r.below(5)) o.d &= ~1u; // mostly the first container
    o.f = 0;
    return o;
}

static void gen_init(Rng& r, Case& c) {
    c.init[0] = gen_cap(r);
    switch (r.below(4)) { case 0: c.init[1] = 0; break; case 1: c.init[1] = c.init[0]; break; default: c.init[1] = r.below(c.init[0] + 1); }
    c.init[2] = r.below(c.init[0] + 1);
    switch (r.below(4)) { case 0: c.init[3] = c.init[0]; break; case 1: c.init[3] = 0; break; default: c.init[3] = r.below(c.init[0] + 1); }
    c.init[4] = r.below(3) ? gen_cap(r) : c.init[0];
    c.init[5] = r.below(c.init[4] + 1);
    c.init[6] = r.below(2) ? c.init[4] : r.below(c.init[4] + 1);
    c.init[7] = (unsigned)r.next() & 0xFF;
    g_big = std::max(c.init[0], c.init[4]) >= 80;
}

static void gen_rand(uint64_t seed, uint64_t idx, Case& c) {
    Rng r(seed * 0x9E3779B97F4A7C15ull + idx * 0xD1342543DE82EF95ull + 12345);
    r.next();
    memset(&c, 0, sizeof c);
    gen_init(r, c);
    unsigned n = 1 + r.below(r.below(4) || std::max(c.init[0], c.init[4]) > 2163 ? 12 : g_prof->maxops);
    for (unsigned i = 0; i < n; ++i) {
        unsigned short code = (r.below(3) == 0 && !g_fampick.empty()) ? g_fampick[r.below(g_fampick.size())] : g_pick[r.below(g_pick.size())];
        c.ops[i] = gen_op(r, code);
        if (g_prof->faults && r.below(4) == 0) c.ops[i].f = 1 + r.below(r.below(2) ? 4 : 24);
    }
    c.nops = n;
    // a long history: the same operations over and over
    if (!g_big && r.below(700) == 0) {
        unsigned steps = r.below(40) ? 200 + r.below(3000) : 60000 + r.below(20000);
        c.init[8] = steps / n;
    }
}
// a case whose op `t` is to be enumerated over all fault points
static int gen_exc(uint64_t seed, uint64_t idx, Case& c) {
    Rng r(seed * 0xA24BAED4963EE407ull + idx * 0x9FB21C651E98DF25ull + 777);
    r.next();
    memset(&c, 0, sizeof c);
    gen_init(r, c);
    for (int i = 0; i < 8; i += 4) if (c.init[i] > 463) { c.init[i] = 64 + c.init[i] % 400; if (!i) c.init[1] %= c.init[0] + 1; for (int j = i ? 5 : 2; j < (i ? 7 : 4); ++j) c.init[j] %= c.init[i] + 1; }
    unsigned pre = r.below(4) ? r.below(3) : r.below(8), post = r.below(5);
    unsigned n = 0;
    for (unsigned i = 0; i < pre; ++i) c.ops[n++] = gen_op(r, g_pick[r.below(g_pick.size())]);
    unsigned t = n;
    c.ops[n++] = gen_op(r, g_fampick.empty() ? g_pick[0] : g_fampick[r.below(g_fampick.size())]);
    for (unsigned i = 0; i < post; ++i) c.ops[n++] = gen_op(r, g_pick[r.below(g_pick.size())]);
    c.nops = n;
    return (int)t;
}

// ---------------------------------------------------------------- shared memory
struct Shm {
    Result res;
    Case cur;
    volatile uint64_t idx, sub;
    volatile uint64_t cases, fam_cases, nontrivial;
    volatile uint64_t featcount[16];
    volatile uint64_t nhash;
    volatile int done;
    volatile int nsamples;
    Case samples[4];
    uint64_t hashes[1u << 20];
};
static Shm* shm;

static void on_cpu_timer(int) { _exit(78); }
static void arm_cpu(int sec) {
    struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = sec;
    setitimer(ITIMER_VIRTUAL, &t, 0);
}
static uint64_t hash_case(const Case& c) {
    uint64_t h = 1469598103934665603ull;
    auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; };
    for (unsigned i = 0; i < 9; ++i) mix(c.init[i]);
    for (unsigned i = 0; i < c.nops; ++i) { mix(c.ops[i].code); mix(c.ops[i].a); mix(c.ops[i].b); mix(c.ops[i].c); mix(c.ops[i].d); mix(c.ops[i].f); }
    return h;
}

static void run_one(const Case& c) {
    memcpy(&shm->cur, &c, sizeof c);
    Result& r = shm->res;
    r.failed = 0; r.tag = 0; r.op_index = -1; r.op_code = 0; r.feats = 0; r.fired = 0;
    exec_case(c);
    ++shm->cases;
    unsigned f = r.feats;
    if (f & FE_FAM) ++shm->fam_cases;
    for (int i = 0; i < 16; ++i) if (f & (1u << i)) ++shm->featcount[i];
    if ((f & FE_FAM) && (f & g_prof->nontrivial)) {
        ++shm->nontrivial;
        if (shm->nhash < (1u << 20)) shm->hashes[shm->nhash++] = hash_case(c);
        int ns = shm->nsamples;
        if (ns < 4 && (shm->nontrivial % 97) == 1) { memcpy(&shm->samples[ns], &c, sizeof c); shm->nsamples = ns + 1; }
    }
}

// ---------------------------------------------------------------- enumeration of small states
struct EnumCtx { uint64_t n, start, shard, shards; uint64_t limit; time_t until; bool stop; };
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double g_deadline;
template <class F> static void enum_cases(unsigned maxcap, bool so, F f) {
    // f(const Case&, index of the enumerated op) -> false to stop
    for (unsigned code = 1; code < OP_COUNT; ++code) {
        if (!g_family[code] || !g_ok[code]) continue;
        unsigned dims = op_dims[code];
        unsigned nc = op_cvars[code] ? op_cvars[code] : 1;
        for (unsigned cap = 0; cap <= maxcap; ++cap)
        for (unsigned off = 0; off < std::max(1u, cap); ++off)
        for (unsigned size = 0; size <= cap; ++size) {
            unsigned mcs[3] = {0, cap / 2, cap};
            unsigned nm = so ? (cap > 1 ? 3 : 2) : 1;
            if (so && cap <= 1) mcs[1] = cap;
            if (so && cap == 0) nm = 1;
            for (unsigned im = 0; im < nm; ++im) {
            unsigned amax = (dims & 1) ? cap + 2 : 0, bmax = (dims & 2) ? cap + 3 : 0;
            unsigned ocs = (dims & 4) ? 4 : 0; // other capacity
            for (unsigned a = 0; a <= amax; ++a)
            for (unsigned b = 0; b <= bmax; ++b)
            for (unsigned cc = 0; cc < nc; ++cc)
            for (unsigned oc = 0; oc <= ocs; ++oc)
            for (unsigned oo = 0; oo < ((dims & 4) ? std::max(1u, oc) : 1u); ++oo)
            for (unsigned os = 0; os <= oc; ++os) {
                Case c; memset(&c, 0, sizeof c);
                c.init[0] = cap; c.init[1] = mcs[im]; c.init[2] = off; c.init[3] = size;
                c.init[4] = oc; c.init[5] = oo; c.init[6] = os;
                c.ops[0].code = code; c.ops[0].a = a; c.ops[0].b = b; c.ops[0].c = cc; c.ops[0].d = 0;
                c.nops = 1;
                if (!f(c)) return;
            } }
        }
    }
}
static const unsigned short suffix_ops[3] = { PUSH_BACK_C, PUSH_FRONT_C, POP_FRONT };
static void add_suffix(Case& c, bool rv) {
    for (int i = 0; i < 3; ++i) {
        unsigned short code = suffix_ops[i];
        if (!g_ok[code]) code = code == PUSH_BACK_C ? PUSH_BACK_R : PUSH_FRONT_R;
        if (!g_ok[code]) continue;
        Op o; memset(&o, 0, sizeof o); o.code = code; c.ops[c.nops++] = o;
    }
    (void)rv;
}

// ---------------------------------------------------------------- driver loops (child)
static std::string g_mode; static uint64_t g_seed; static uint64_t g_ncases; static unsigned g_maxcap = 4; static uint64_t g_shard, g_shards = 1;
static bool g_so;
static int g_cpu_limit = 20;

static void enum_faults(Case c, unsigned t, unsigned maxk) {
    for (unsigned k = 1; k <= maxk; ++k) {
        c.ops[t].f = (unsigned short)k;
        shm->sub = k;
        arm_cpu(g_cpu_limit);
        run_one(c);
        if (!shm->res.fired) break;
    }
}
static void child_loop(uint64_t from) {
    signal(SIGVTALRM, on_cpu_timer);
    if (g_mode == "rand") {
        for (uint64_t i = from; i < g_ncases; ++i) {
            if ((i & 15) == 0 && now() > g_deadline) break;
            shm->idx = i;
            Case c; gen_rand(g_seed, i * g_shards + g_shard, c);
            arm_cpu(g_cpu_limit);
            run_one(c);
        }
    } else if (g_mode == "exc") {
        for (uint64_t i = from; i < g_ncases; ++i) {
            if ((i & 7) == 0 && now() > g_deadline) break;
            shm->idx = i;
            Case c; int t = gen_exc(g_seed, i * g_shards + g_shard, c);
            enum_faults(c, t, 80);
        }
    } else if (g_mode == "enum" || g_mode == "enumexc") {
        uint64_t n = 0;
        enum_cases(g_maxcap, g_so, [&](const Case& c0) {
            uint64_t i = n++;
            if (i % g_shards != g_shard || i < from) return true;
            if ((i & 31) == 0 && now() > g_deadline) return false;
            if (shm->cases >= g_ncases) return false;
            shm->idx = i;
            Case c = c0; add_suffix(c, false);
            if (g_mode == "enum") { arm_cpu(g_cpu_limit); run_one(c); }
            else enum_faults(c, 0, 80);
            return true;
        });
        shm->done = 1;
    }
}

// ---------------------------------------------------------------- single isolated run
struct Outcome { bool failed; int tag, op_index, op_code; std::string msg; unsigned feats; };
static Outcome run_isolated(const Case& c, bool quiet) {
    fflush(stdout); fflush(stderr);
    memset((void*)&shm->res, 0, offsetof(Result, opcount));
    shm->res.msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
        signal(SIGVTALRM, on_cpu_timer); arm_cpu(g_cpu_limit);
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        shm->res.op_index = -1;
        exec_case(c);
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    Outcome o; o.op_index = shm->res.op_index; o.op_code = shm->res.op_code; o.tag = 0; o.failed = true; o.feats = shm->res.feats;
    if (shm->res.fired) o.feats |= FE_THREW;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { o.failed = false; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.tag = shm->res.tag; o.msg = shm->res.msg; return o; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { o.tag = T_HANG; o.msg = "operation does not terminate (CPU limit)"; return o; }
    o.tag = T_CRASH;
    char b[200];
    if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashed with signal %d", WTERMSIG(st));
    else snprintf(b, sizeof b, "sanitizer or abnormal exit (status %d)", WEXITSTATUS(st));
    o.msg = b;
    return o;
}
// the failure must be attributable to an operation the property is about
static bool has_family(const Case& c, const Outcome& o) {
    if (g_prof->anyop) return true;
    if (o.op_index < 0) return g_family[PUSH_BACK_C] || g_family[PUSH_BACK_R]; // while the initial state was being built
    if ((unsigned)o.op_index < c.nops) return g_family[c.ops[o.op_index].code];
    for (unsigned i = 0; i < c.nops; ++i) if (g_family[c.ops[i].code]) return true;
    return false;
}
static bool accept(const Case& c, const Outcome& o) {
    return o.failed && (g_prof->tags >> o.tag & 1) && has_family(c, o) && (!g_prof->needs_throw || (o.feats & FE_THREW));
}

static Case shrink(Case best, Outcome& out, double secs) {
    double end = now() + secs; int evals = 0;
    auto want = [&](const Case& c, Outcome& o) { ++evals; if (now() > end || evals > 3000) return false; o = run_isolated(c, true); return accept(c, o); };
    bool okay = accept(best, out);
    auto try_it = [&](const Case& c) {
        Outcome o;
        ++evals; if (now() > end || evals > 3000) return false;
        o = run_isolated(c, true);
        bool good = okay ? accept(c, o) : o.failed;
        if (good) { best = c; out = o; }
        return good;
    };
    (void)want;
    // drop everything after the failing op
    while (best.init[8]) { Case c = best; c.init[8] = best.init[8] > 8 ? best.init[8] - best.init[8] / 8 : best.init[8] - 1; Case z = best; z.init[8] = 0; if (!try_it(z) && !try_it(c)) break; }
    if (out.op_index >= 0 && (unsigned)out.op_index + 1 < best.nops) { Case c = best; c.nops = out.op_index + 1; try_it(c); }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (unsigned len = best.nops; len >= 1; len = len / 2) {
            for (unsigned i = 0; i + len <= best.nops; ) {
                Case c = best;
                for (unsigned j = i; j + len < c.nops; ++j) c.ops[j] = c.ops[j + len];
                c.nops -= len;
                if (try_it(c)) progress = true; else ++i;
            }
            if (len == 1) break;
        }
        for (int i = 0; i < 9; ++i) {
            while (best.init[i] > 0) {
                Case c = best; c.init[i] = 0;
                if (try_it(c)) { progress = true; break; }
                c = best; c.init[i] /= 2; if (c.init[i] != best.init[i] && try_it(c)) { progress = true; continue; }
                c = best; c.init[i] -= 1; if (try_it(c)) { progress = true; continue; }
                break;
            }
        }
        // pairs of init values that bound each other
        for (int i = 0; i < 4; ++i) while (best.init[0] > 0) {
            Case c = best; c.init[0]--; for (int j = 1; j < 4; ++j) if (c.init[j] > c.init[0]) c.init[j] = c.init[0];
            if (!try_it(c)) break;
            progress = true;
        }
        for (unsigned i = 0; i < best.nops; ++i) {
            for (int f = 0; f < 5; ++f) {
                for (int guard = 0; guard < 40; ++guard) {
                    Case c = best; Op& o = c.ops[i];
                    unsigned v = f == 0 ? o.a : f == 1 ? o.b : f == 2 ? o.c : f == 3 ? o.d : o.f;
                    if (!v) break;
                    unsigned cand[3] = { 0, v / 2, v - 1 };
                    bool did = false;
                    for (unsigned x : cand) {
                        if (x >= v) continue;
                        c = best;
                        Op& q = c.ops[i];
                        if (f == 0) q.a = x; else if (f == 1) q.b = x; else if (f == 2) q.c = x; else if (f == 3) q.d = x; else q.f = (unsigned short)x;
                        if (try_it(c)) { did = true; progress = true; break; }
                    }
                    if (!did) break;
                }
            }
        }
    }
    return best;
}

static std::string case_text(const Case& c) {
    std::string s; char b[256];
    snprintf(b, sizeof b, "init cap=%u mincap=%u offset=%u size=%u othercap=%u otheroff=%u othersize=%u flags=%u rounds=%u\n",
        c.init[0], c.init[1], c.init[2], c.init[3], c.init[4], c.init[5], c.init[6], c.init[7], c.init[8]);
    s += b;
    for (unsigned i = 0; i < c.nops; ++i) {
        const Op& o = c.ops[i];
        snprintf(b, sizeof b, "op %u %u %u %u %u %u # %s\n", o.code, o.a, o.b, o.c, o.d, o.f, op_names[o.code < OP_COUNT ? o.code : 0]);
        s += b;
    }
    return s;
}
static bool load_case(const char* path, Case& c) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    memset(&c, 0, sizeof c);
    char line[512];
    while (fgets(line, sizeof line, f)) {
        if (!strncmp(line, "init ", 5)) {
            sscanf(line, "init cap=%u mincap=%u offset=%u size=%u othercap=%u otheroff=%u othersize=%u flags=%u rounds=%u",
                &c.init[0], &c.init[1], &c.init[2], &c.init[3], &c.init[4], &c.init[5], &c.init[6], &c.init[7], &c.init[8]);
        } else if (!strncmp(line, "op ", 3) && c.nops < MAXOPS) {
            unsigned code, a, b, cc, d, ff;
            if (sscanf(line, "op %u %u %u %u %u %u", &code, &a, &b, &cc, &d, &ff) == 6 && code < OP_COUNT) {
                Op& o = c.ops[c.nops++]; o.code = code; o.a = a; o.b = b; o.c = cc; o.d = d; o.f = ff;
            }
        }
    }
    fclose(f);
    return true;
}
static std::string json_escape(const std::string& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}

#ifdef CBV_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    static Result r; g_res = &r; g_fuzz = true;
    const char* p = getenv("CBV_PROFILE");
    setup_profile(find_profile(p ? p : "C01"));
    return 0;
}
static int g_fuzz_t;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 7) return 0;
    Case c; memset(&c, 0, sizeof c);
    size_t i = 0;
    auto byte = [&]() -> unsigned { return i < size ? data[i++] : 0u; };
    c.init[0] = byte() % 24; c.init[1] = byte() % (c.init[0] + 1); c.init[2] = byte() % (c.init[0] + 1); c.init[3] = byte() % (c.init[0] + 1);
    c.init[4] = byte() % 24; c.init[5] = byte() % (c.init[4] + 1); c.init[6] = byte() % (c.init[4] + 1);
    while (i < size && c.nops < 40) {
        Op& o = c.ops[c.nops++];
        unsigned k = byte();
        o.code = g_pick[(k * 7919u) % g_pick.size()];
        unsigned x = byte(); o.a = x >= 252 ? 0xFFFFFFFFu - (255 - x) : x;
        unsigned y = byte(); o.b = y >= 252 ? 0xFFFFFFFFu - (255 - y) : y;
        o.c = byte(); o.d = byte() & 0x0F;
        if (g_prof->faults) { unsigned z = byte(); o.f = z < 128 ? z % 32 : 0; }
    }
    if (const char* dump = getenv("CBV_CASE")) { // convert the input instead of running it
        FILE* f = fopen(dump, "w");
        if (f) { fprintf(f, "%s", case_text(c).c_str()); fclose(f); }
        return 0;
    }
    memset((void*)g_res, 0, offsetof(Result, opcount));
    exec_case(c);
    return 0;
}
#else
int main(int argc, char** argv) {
    std::string profile = "C01", out = ".", replay, stats, casefile;
    double timecap = 20; g_mode = "rand"; g_seed = 1; g_ncases = 1000;
    int maxfound = 1; int maxforeign = 400;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--profile") profile = val();
        else if (a == "--mode") g_mode = val();
        else if (a == "--seed") g_seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") g_ncases = strtoull(val().c_str(), 0, 10);
        else if (a == "--time") timecap = atof(val().c_str());
        else if (a == "--maxcap") g_maxcap = atoi(val().c_str());
        else if (a == "--shard") { sscanf(val().c_str(), "%lu/%lu", (unsigned long*)&g_shard, (unsigned long*)&g_shards); }
        else if (a == "--out") out = val();
        else if (a == "--stats") stats = val();
        else if (a == "--replay") replay = val();
        else if (a == "--case") { casefile = val(); g_mode = "case"; }
        else if (a == "--trace") g_trace = 1;
        else if (a == "--cpu") g_cpu_limit = atoi(val().c_str());
        else if (a == "--config") { puts(exec_config()); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) return 3;
    g_res = &shm->res;
    const Profile* p = find_profile(profile.c_str());
    if (!p) { fprintf(stderr, "no profile\n"); return 3; }
    setup_profile(p);
    g_so = strstr(exec_config(), "cont=so") != 0;
    if (!replay.empty()) {
        Case c; if (!load_case(replay.c_str(), c)) return 3;
        Outcome o = run_isolated(c, false);
        if (!o.failed) { printf("REPLAY PASS\n"); return 0; }
        printf("REPLAY FAIL tag=%s op#%d %s: %s\n", tag_names[o.tag], o.op_index, op_names[o.op_code], o.msg.c_str());
        return accept(c, o) ? 1 : 2;
    }
    double t0 = now();
    g_deadline = t0 + timecap;
    uint64_t from = 0;
    struct Found { Case c; Outcome o; bool mine; };
    std::vector<Found> found; int mine = 0, foreign = 0;
    bool broke = false;
    if (g_mode == "case") { // a single case found elsewhere (coverage-guided search): judge and shrink it
        Case c; if (!load_case(casefile.c_str(), c)) return 3;
        Outcome o = run_isolated(c, true); ++shm->cases;
        if (accept(c, o)) { c = shrink(c, o, 25); Found f; f.c = c; f.o = o; f.mine = accept(c, o); if (f.mine) { found.push_back(f); ++mine; } }
    }
    while (g_mode != "case" && (from < g_ncases || g_mode == "enum" || g_mode == "enumexc")) {
        fflush(stdout); fflush(stderr);
        shm->done = 0; shm->res.failed = 0;
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1);
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            child_loop(from); _exit(0);
        }
        int st = 0; if (waitpid(pid, &st, 0) != pid) { broke = true; break; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        ++shm->cases;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { broke = true; break; } // memory guard, not the code under test
        Case c; memcpy(&c, &shm->cur, sizeof c);
        from = shm->idx + 1;
        Outcome o = run_isolated(c, true);
        if (!o.failed) { ++foreign; if (foreign >= maxforeign) break; continue; } // not reproducible alone: never reported
        bool was = accept(c, o);
        if (was) c = shrink(c, o, 25);
        Found f; f.c = c; f.o = o; f.mine = accept(c, o);
        if (f.mine) { found.push_back(f); if (++mine >= maxfound) break; }
        else { if (found.size() < 4) found.push_back(f); if (++foreign >= maxforeign) break; }
        if (now() > t0 + timecap + 60) break;
    }
    // results
    std::string js = "{";
    char b[1024];
    snprintf(b, sizeof b, "\"profile\":\"%s\",\"mode\":\"%s\",\"config\":\"%s\",\"cases\":%llu,\"family_cases\":%llu,\"nontrivial\":%llu,\"throws\":%llu,\"broke\":%d,\"complete\":%d,",
        profile.c_str(), g_mode.c_str(), exec_config(), (unsigned long long)shm->cases, (unsigned long long)shm->fam_cases,
        (unsigned long long)shm->nontrivial, (unsigned long long)shm->res.throws_, broke ? 1 : 0, shm->done && now() < g_deadline ? 1 : 0);
    js += b;
    js += "\"ops\":{"; bool first = true;
    for (int i = 1; i < OP_COUNT; ++i) if (shm->res.opcount[i]) { snprintf(b, sizeof b, "%s\"%s\":%llu", first ? "" : ",", op_names[i], (unsigned long long)shm->res.opcount[i]); js += b; first = false; }
    js += "},\"feats\":[";
    for (int i = 0; i < 12; ++i) { snprintf(b, sizeof b, "%s%llu", i ? "," : "", (unsigned long long)shm->featcount[i]); js += b; }
    js += "],\"samples\":[";
    for (int i = 0; i < shm->nsamples; ++i) { js += i ? "," : ""; js += "\"" + json_escape(case_text(shm->samples[i])) + "\""; }
    js += "],\"found\":[";
    for (size_t i = 0; i < found.size(); ++i) {
        Found& f = found[i];
        char path[600]; snprintf(path, sizeof path, "%s/%s-%s-%d-%d.case", out.c_str(), profile.c_str(), f.mine ? "viol" : "foreign", (int)getpid(), (int)i);
        FILE* fp = fopen(path, "w");
        if (fp) {
            fprintf(fp, "# circular_buffer verification replay\nprofile %s\nconfig %s\n# tag=%s op#%d %s: %s\n%s", profile.c_str(), exec_config(),
                tag_names[f.o.tag], f.o.op_index, op_names[f.o.op_code], f.o.msg.c_str(), case_text(f.c).c_str());
            fclose(fp);
        }
        snprintf(b, sizeof b, "%s{\"mine\":%d,\"tag\":\"%s\",\"op\":\"%s\",\"path\":\"%s\",\"msg\":\"", i ? "," : "", f.mine ? 1 : 0, tag_names[f.o.tag], op_names[f.o.op_code], path);
        js += b; js += json_escape(f.o.msg); js += "\",\"text\":\"" + json_escape(case_text(f.c)) + "\"}";
    }
    js += "]}";
    if (!stats.empty()) {
        FILE* f = fopen(stats.c_str(), "w"); if (!f) return 3; fwrite(js.data(), 1, js.size(), f); fputc('\n', f); fclose(f);
        std::string hp = stats + ".hash"; f = fopen(hp.c_str(), "wb");
        if (f) { fwrite((void*)shm->hashes, 8, shm->nhash, f); fclose(f); }
    } else puts(js.c_str());
    return mine ? 1 : 0;
}
#endif
