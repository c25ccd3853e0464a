#include "profiles.h"
#include <string.h>
#define BIT(t) (1u << (t))
static const unsigned OBS = BIT(T_CONTENT) | BIT(T_RET) | BIT(T_VIEW) | BIT(T_CAP) | BIT(T_EXPOSE) | BIT(T_CRASH) | BIT(T_HANG) | BIT(T_ASSERT);

typedef std::vector<Weight> W;
static W operator+(W a, const W& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static std::vector<int> ops(const W& w) { std::vector<int> r; for (size_t i = 0; i < w.size(); ++i) r.push_back(w[i].op); return r; }

static const W pushpop = { {PUSH_BACK_C,6},{PUSH_BACK_R,4},{PUSH_BACK_D,2},{PUSH_FRONT_C,5},{PUSH_FRONT_R,4},{PUSH_FRONT_D,2},{POP_BACK,5},{POP_FRONT,5},{PUSH_BACK_ALIAS,2},{PUSH_FRONT_ALIAS,2} };
static const W ins = { {INS_C,4},{INS_R,3},{INS_D,1},{INS_N,3},{INS_RANGE,4},{INS_INT,1},{RINS_C,4},{RINS_R,3},{RINS_D,1},{RINS_N,3},{RINS_RANGE,4},{RINS_INT,1} };
static const W ins_r = { {INS_RANGE,5},{INS_INT,3},{RINS_RANGE,5},{RINS_INT,3} };
static const W era = { {ERASE,4},{ERASE_RANGE,4},{RERASE,4},{RERASE_RANGE,4},{ERASE_BEGIN,3},{ERASE_END,3},{CLEAR,1} };
static const W capsz = { {SET_CAP,4},{RSET_CAP,4},{RESIZE,3},{RESIZE_D,1},{RRESIZE,3},{RRESIZE_D,1} };
static const W over = { {SET_CAP_OVER,1},{RSET_CAP_OVER,1},{RESIZE_OVER,1} };
static const W perm = { {LINEARIZE,3},{ROTATE,5} };
static const W asg = { {ASSIGN_N,2},{ASSIGN_CAP_N,2},{ASSIGN_RANGE,3},{ASSIGN_CAP_RANGE,3},{ASSIGN_INT,1},{ASSIGN_CAP_INT,1} };
static const W asg_r = { {ASSIGN_RANGE,4},{ASSIGN_CAP_RANGE,4},{ASSIGN_INT,2},{ASSIGN_CAP_INT,2} };
static const W cpy = { {COPY_ASSIGN,3},{SELF_ASSIGN,1},{MOVE_ASSIGN,2},{SWAP,2},{SWAP_FREE,1} };
static const W ctor = { {CTOR_DEF,1},{CTOR_CAP,1},{CTOR_N,1},{CTOR_CAP_N,2},{CTOR_RANGE,2},{CTOR_CAP_RANGE,3},{CTOR_INT,1},{CTOR_CAP_INT,1},{CTOR_COPY,3},{CTOR_MOVE,2},{CTOR_CAP_ITEM,1} };
static const W ctor_r = { {CTOR_RANGE,3},{CTOR_CAP_RANGE,4},{CTOR_INT,1},{CTOR_CAP_INT,2} };
static const W ctor_over = { {CTOR_OVER,1} };
static const W view = { {WRITE_VIEW,4},{AT_OOR,1} };
static const W itl = { {ITLAWS,4},{ALGO,4} };
static const W cmp = { {COMPARE,6} };
static const W pool = { {IT_GET,10},{IT_COPY,3},{IT_ASSIGN,3},{IT_DROP,2},{IT_CONV,2},{IT_END,4} };

// a light mix that keeps the state varied
static const W mix = { {PUSH_BACK_C,3},{PUSH_BACK_R,3},{PUSH_FRONT_C,3},{PUSH_FRONT_R,3},{POP_BACK,3},{POP_FRONT,3},{INS_C,1},{INS_R,1},{RINS_C,1},{RINS_R,1},{ERASE,1},{RERASE,1},{ROTATE,1},{SET_CAP,1},{RSET_CAP,1},{LINEARIZE,1},{RESIZE,1},{RRESIZE,1},{ERASE_RANGE,1},{INS_RANGE,1},{SWAP,1} };
static const W all = pushpop + ins + era + capsz + perm + asg + cpy + ctor;
static const W mutators = all + over + ctor_over;

static std::vector<Profile> build() {
    std::vector<Profile> v;
    auto add = [&](const char* id, W w, W fam, unsigned tags, unsigned nt, bool faults, bool any, unsigned maxops, bool nthrow) {
        Profile p; p.id = id; p.weights = w; p.family = ops(fam); p.tags = tags; p.nontrivial = nt; p.faults = faults; p.anyop = any; p.maxops = maxops; p.needs_throw = nthrow; p.bigcaps = 0; v.push_back(p); };
    const unsigned WR = FE_WRAP | FE_FULL;
    add("C01", mix + pushpop, pushpop, OBS, WR, false, false, 60, false);
    add("C02", mix + ins, ins, OBS, WR, false, false, 40, false);
    add("C03", mix + era, era, OBS, WR, false, false, 40, false);
    add("C04", mix + asg + cpy + ctor, asg + cpy + ctor, OBS, WR | FE_MID, false, false, 40, false);
    add("C05", mix + capsz + over, capsz + over, OBS | BIT(T_STRONG), WR, false, false, 40, false);
    add("C06", mix + view + asg + cpy + perm, all + view, BIT(T_VIEW) | BIT(T_CRASH) | BIT(T_HANG), WR, false, true, 60, false);
    add("C07", mix + itl, itl, BIT(T_ITER) | BIT(T_CONTENT) | BIT(T_VIEW) | BIT(T_EXPOSE) | BIT(T_CRASH) | BIT(T_HANG) | BIT(T_ASSERT), WR, false, false, 40, false);
    add("C08", mix + perm + perm, perm, OBS | BIT(T_STAB), WR, false, false, 40, false);
    add("C09", all, all, BIT(T_LIFE) | BIT(T_EXPOSE) | BIT(T_CRASH) | BIT(T_HANG), FE_MID, true, true, 50, false);
    add("C10", mutators, mutators, BIT(T_ALLOC) | BIT(T_NOALLOC) | BIT(T_CRASH) | BIT(T_HANG), FE_MID, true, true, 50, false);
    add("C11", all + pool, all, BIT(T_EXC) | BIT(T_LIFE) | BIT(T_ALLOC) | BIT(T_EXPOSE) | BIT(T_CONTENT) | BIT(T_VIEW) | BIT(T_CAP) | BIT(T_MOVE) | BIT(T_CRASH) | BIT(T_HANG) | BIT(T_DBGVALID) | BIT(T_ASSERT), FE_THREW, true, true, 40, true);
    add("C12", mix + capsz + cpy + perm + over + pushpop + era, capsz + cpy + perm + over + era + ctor + W{{POP_BACK,2},{POP_FRONT,2},{AT_OOR,2}}, BIT(T_STRONG) | BIT(T_NOTHROW) | BIT(T_CRASH) | BIT(T_EXPOSE) | BIT(T_LIFE), FE_MID, true, false, 40, false);
    add("C13", mutators, all, BIT(T_MOVE), FE_MID, true, true, 40, false);
    add("C14", all + pool + pool + view, all, BIT(T_STAB) | BIT(T_CRASH), FE_POOL | FE_MID, false, true, 50, false);
    add("C15", all + W{{ITLAWS,1}}, all + W{{ITLAWS,1}}, BIT(T_COST) | BIT(T_NOALLOC) | BIT(T_HANG), FE_MID, false, true, 40, false); v.back().bigcaps = 25;
    add("C16", mutators + mix, all, OBS | BIT(T_ITER) | BIT(T_CMP) | BIT(T_STRONG), FE_MID, false, true, 60, false); v.back().bigcaps = 4;
    add("C17", all + pushpop + pushpop + era, all, BIT(T_MEM) | BIT(T_HANG) | BIT(T_CRASH), FE_MID, false, true, 80, false); v.back().bigcaps = 4;
    add("C18", all, all, BIT(T_EXC) | BIT(T_LIFE) | BIT(T_ALLOC) | BIT(T_EXPOSE) | BIT(T_CONTENT) | BIT(T_VIEW) | BIT(T_CAP) | BIT(T_STRONG) | BIT(T_MEM) | BIT(T_CRASH) | BIT(T_HANG), FE_THREW, true, true, 40, true);
    add("C19", all + pool + pool + pool, all, BIT(T_DBGVALID) | BIT(T_STAB) | BIT(T_ASSERT) | BIT(T_CRASH) | BIT(T_HANG), FE_POOL, false, true, 60, false);
    add("C20", mutators + itl + pool + view + cmp, mutators + itl + view + cmp, BIT(T_DBGFILL) | BIT(T_ASSERT) | OBS | BIT(T_ITER) | BIT(T_CMP), FE_MID, false, true, 50, false);
    add("C21", mix + cmp + cmp + cmp, cmp, OBS | BIT(T_CMP) | BIT(T_NOTHROW), FE_MID | FE_EMPTY, false, false, 30, false);
    add("C23", mix + ins_r + asg_r + ctor_r, ins_r + asg_r + ctor_r, OBS | BIT(T_RANGE), FE_MID | FE_EMPTY, false, false, 30, false);
    const char* some[] = { "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C14", "C21", "C23" };
    for (Profile& p : v) for (const char* s : some) if (!strcmp(p.id, s)) p.bigcaps = 2;
    const char* rest[] = { "C09", "C10", "C11", "C12", "C13", "C18", "C20" };
    for (Profile& p : v) for (const char* s : rest) if (!strcmp(p.id, s)) p.bigcaps = 1;
    add("ALL", mutators + view + itl + cmp + pool, mutators, 0xFFFFFFFFu, FE_MID, true, true, 60, false);
    add("ALLN", mutators + view + itl + cmp + pool, mutators, 0xFFFFFFFFu, FE_MID, false, true, 60, false);
    return v;
}
static const std::vector<Profile>& profs() { static const std::vector<Profile> v = build(); return v; }
const Profile* find_profile(const char* id) { for (const Profile& p : profs()) if (!strcmp(p.id, id)) return &p; return 0; }

unsigned char op_dims[OP_COUNT];
unsigned char op_cvars[OP_COUNT];
static struct Init { Init() {
    memset(op_dims, 0, sizeof op_dims); memset(op_cvars, 1, sizeof op_cvars);
    int a1[] = { PUSH_BACK_ALIAS, PUSH_FRONT_ALIAS, INS_C, INS_R, INS_D, RINS_C, RINS_R, RINS_D, ERASE, RERASE, ERASE_BEGIN, ERASE_END, RSET_CAP, SET_CAP,
        RESIZE, RESIZE_D, RRESIZE, RRESIZE_D, WRITE_VIEW, ROTATE, ASSIGN_N, ASSIGN_INT, CTOR_CAP, CTOR_N, CTOR_INT, ASSIGN_RANGE, CTOR_RANGE, ALGO, CTOR_CAP_ITEM };
    for (int c : a1) op_dims[c] |= 1;
    int ab[] = { INS_N, INS_INT, RINS_N, RINS_INT, INS_RANGE, RINS_RANGE, ERASE_RANGE, RERASE_RANGE, ASSIGN_CAP_N, ASSIGN_CAP_INT, ASSIGN_CAP_RANGE, CTOR_CAP_N, CTOR_CAP_INT, CTOR_CAP_RANGE };
    for (int c : ab) op_dims[c] |= 3;
    int oo[] = { COPY_ASSIGN, MOVE_ASSIGN, SWAP, SWAP_FREE, CTOR_COPY, CTOR_MOVE, COMPARE };
    for (int c : oo) op_dims[c] |= 4;
    int rng[] = { INS_RANGE, RINS_RANGE, ASSIGN_RANGE, ASSIGN_CAP_RANGE, CTOR_RANGE, CTOR_CAP_RANGE };
    for (int c : rng) op_cvars[c] = 8;
    op_cvars[WRITE_VIEW] = 10; op_cvars[ALGO] = 7; op_cvars[COMPARE] = 6; op_cvars[SELF_ASSIGN] = 3; op_cvars[CTOR_MOVE] = 8;
} } init_tables;
