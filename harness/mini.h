// A small generate / isolate / shrink / replay driver for the special-purpose harnesses (C++11).
// The harness defines: NP (number of parameters), pnames, gen(), enum_next(), run(), nontrivial(), describe().
#ifndef CBV_MINI_H
#define CBV_MINI_H
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <vector>
enum { MAXP = 24 };
struct PCase { unsigned p[MAXP]; };
extern const int NP;
extern const char* const pnames[];
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) {}
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    unsigned below(unsigned n) { return n ? (unsigned)(next() % n) : 0; }
};
void gen(Rng& r, PCase& c);
bool enum_next(PCase& c, bool first, unsigned maxcap); // steps through every small case
void run(const PCase& c);            // calls bad() on a violation
bool nontrivial(const PCase& c);     // by the property's stated rule
std::string describe(const PCase& c);
const char* tag_of(const PCase& c);

struct MiniShm { PCase cur; volatile uint64_t idx, cases, nt, nhash, skipped; volatile int done; volatile int ns; PCase samples[4]; char msg[1500]; char cls[64]; uint64_t classes[64]; uint64_t hashes[1u << 20]; };
static MiniShm* msh;
static bool mini_trace;
static void bad(const char* fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
static void bad(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(msh->msg, sizeof msh->msg, fmt, ap); va_end(ap);
    if (mini_trace) { printf("FAIL %s\n", msh->msg); fflush(stdout); }
    _exit(77);
}
static int mini_cpu = 20;
static void mini_timer(int) { _exit(78); }
static void mini_arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = mini_cpu; setitimer(ITIMER_VIRTUAL, &t, 0); }
static double mini_now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t mini_hash(const PCase& c) { uint64_t h = 1469598103934665603ull; for (int i = 0; i < NP; ++i) { h ^= c.p[i] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; } return h; }
static std::string mini_text(const PCase& c) {
    std::string s = "case"; char b[64];
    for (int i = 0; i < NP; ++i) { snprintf(b, sizeof b, " %s=%u", pnames[i], c.p[i]); s += b; }
    return s + " # " + describe(c) + "\n";
}
static bool mini_load(const char* path, PCase& c) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    memset(&c, 0, sizeof c); char line[2048]; bool ok = false;
    while (fgets(line, sizeof line, f)) if (!strncmp(line, "case ", 5)) {
        ok = true;
        for (int i = 0; i < NP; ++i) { std::string k = std::string(" ") + pnames[i] + "="; const char* q = strstr(line, k.c_str()); if (q) c.p[i] = (unsigned)strtoul(q + k.size(), 0, 10); }
    }
    fclose(f); return ok;
}
static void mini_one(const PCase& c) {
    msh->cur = c; msh->msg[0] = 0; mini_arm(); run(c); ++msh->cases;
    if (nontrivial(c)) {
        ++msh->nt; if (msh->nhash < (1u << 20)) msh->hashes[msh->nhash++] = mini_hash(c);
        if (msh->ns < 4 && msh->nt % 97 == 1) { msh->samples[msh->ns] = c; msh->ns = msh->ns + 1; }
    }
}
// 0 passed, 1 failed
static int mini_iso(const PCase& c, bool quiet, std::string& msg) {
    fflush(stdout); msh->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        if (quiet) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); }
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        signal(SIGVTALRM, mini_timer); mini_arm(); run(c); _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 0;
    char b[128];
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) msg = msh->msg;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) msg = "does not terminate (CPU limit)";
    else { if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashed with signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "sanitizer report or abnormal exit (status %d)", WEXITSTATUS(st)); msg = b; }
    return 1;
}
static std::string mini_esc(const std::string& s) {
    std::string r; for (size_t i = 0; i < s.size(); ++i) { unsigned char ch = s[i]; if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; } else if (ch == '\n') r += "\\n"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; } else r += (char)ch; }
    return r;
}
int main(int argc, char** argv) {
    std::string mode = "rand", out = ".", stats, replay, profile = "?"; uint64_t seed = 1, ncases = 1000; double tcap = 20; unsigned maxcap = 3; unsigned long shard = 0, shards = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--profile") profile = val(); else if (a == "--mode") mode = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--cases") ncases = strtoull(val().c_str(), 0, 10); else if (a == "--time") tcap = atof(val().c_str()); else if (a == "--maxcap") maxcap = atoi(val().c_str());
        else if (a == "--shard") sscanf(val().c_str(), "%lu/%lu", &shard, &shards); else if (a == "--out") out = val(); else if (a == "--stats") stats = val();
        else if (a == "--replay") replay = val(); else if (a == "--trace") mini_trace = true; else if (a == "--cpu") mini_cpu = atoi(val().c_str()); else return 3;
    }
    msh = (MiniShm*)mmap(0, sizeof(MiniShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (msh == MAP_FAILED) return 3;
    if (!replay.empty()) {
        PCase c; if (!mini_load(replay.c_str(), c)) return 3;
        std::string m; int f = mini_iso(c, false, m);
        if (!f) { printf("REPLAY PASS\n"); return 0; }
        printf("REPLAY FAIL %s\n%s", m.c_str(), mini_text(c).c_str()); return 1;
    }
    double t0 = mini_now(), dl = t0 + tcap; uint64_t from = 0; bool broke = false; bool have = false; PCase fc; std::string fm; int dropped = 0;
    for (;;) {
        msh->done = 0; fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
            struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
            signal(SIGVTALRM, mini_timer);
            uint64_t since = 0;
            if (mode == "rand") {
                for (uint64_t i = from; i < ncases; ++i) {
                    if (mini_now() > dl) { msh->done = 1; break; }
                    if (++since > 20000) { msh->idx = i - 1; _exit(9); }
                    msh->idx = i;
                    Rng r(seed * 0x9E3779B97F4A7C15ull + (i * shards + shard) * 0xD1342543DE82EF95ull + 99); r.next();
                    PCase c; memset(&c, 0, sizeof c); gen(r, c); mini_one(c);
                }
                msh->done = 1;
            } else {
                PCase c; memset(&c, 0, sizeof c); uint64_t i = 0; bool more = enum_next(c, true, maxcap);
                for (; more; more = enum_next(c, false, maxcap), ++i) {
                    if (i % shards != shard || i < from) continue;
                    if (mini_now() > dl) { msh->done = 1; break; }
                    if (++since > 20000) { msh->idx = i - 1; _exit(9); }
                    msh->idx = i; mini_one(c);
                }
                msh->done = more ? 1 : 2;
            }
            _exit(0);
        }
        int st = 0; if (waitpid(pid, &st, 0) != pid) { broke = true; break; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { from = msh->idx + 1; continue; } // fresh process, memory given back
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { broke = true; break; }
        from = msh->idx + 1;
        PCase c = msh->cur; std::string m; ++msh->cases;
        if (!mini_iso(c, true, m)) { if (++dropped > 20) break; continue; }
        double end = mini_now() + 20; bool prog = true;
        while (prog && mini_now() < end) {
            prog = false;
            for (int i = 0; i < NP; ++i) while (c.p[i]) {
                unsigned cand[3] = { 0, c.p[i] / 2, c.p[i] - 1 }; bool did = false;
                for (int k = 0; k < 3 && !did; ++k) if (cand[k] < c.p[i]) { PCase d = c; d.p[i] = cand[k]; std::string m2; if (mini_iso(d, true, m2)) { c = d; m = m2; did = prog = true; } }
                if (!did || mini_now() > end) break;
            }
        }
        have = true; fc = c; fm = m; break;
    }
    char b[600]; std::string js = "{";
    snprintf(b, sizeof b, "\"profile\":\"%s\",\"mode\":\"%s\",\"config\":\"%s\",\"cases\":%llu,\"family_cases\":%llu,\"nontrivial\":%llu,\"throws\":0,\"broke\":%d,\"complete\":%d,\"ops\":{",
        profile.c_str(), mode.c_str(), CBV_CFG, (unsigned long long)msh->cases, (unsigned long long)msh->cases, (unsigned long long)msh->nt, broke, msh->done == 2);
    js += b; js += "},\"samples\":[";
    for (int i = 0; i < msh->ns; ++i) { js += i ? ",\"" : "\""; js += mini_esc(mini_text(msh->samples[i])) + "\""; }
    js += "],\"found\":[";
    if (have) {
        snprintf(b, sizeof b, "%s/%s-viol-%d.case", out.c_str(), profile.c_str(), (int)getpid());
        FILE* f = fopen(b, "w"); if (f) { fprintf(f, "# circular_buffer verification replay\nconfig %s\n# %s\n%s", CBV_CFG, fm.c_str(), mini_text(fc).c_str()); fclose(f); }
        js += "{\"mine\":1,\"tag\":\"" + std::string(tag_of(fc)) + "\",\"op\":\"\",\"path\":\"" + b + "\",\"msg\":\"" + mini_esc(fm) + "\",\"text\":\"" + mini_esc(mini_text(fc)) + "\"}";
    }
    js += "]}";
    if (stats.empty()) puts(js.c_str());
    else { FILE* f = fopen(stats.c_str(), "w"); if (!f) return 3; fprintf(f, "%s\n", js.c_str()); fclose(f); f = fopen((stats + ".hash").c_str(), "wb"); if (f) { fwrite(msh->hashes, 8, msh->nhash, f); fclose(f); } }
    return have ? 1 : 0;
}
#endif
