// Shared between the engine (C++17) and the executors (C++98..C++20): plain data only.
#ifndef CBV_CORE_H
#define CBV_CORE_H
#include <stddef.h>

enum OpCode {
  OP_NOP = 0,
  // C01
  PUSH_BACK_C, PUSH_BACK_R, PUSH_BACK_D, PUSH_FRONT_C, PUSH_FRONT_R, PUSH_FRONT_D,
  POP_BACK, POP_FRONT, PUSH_BACK_ALIAS, PUSH_FRONT_ALIAS, PUSH_BACK_MANY, PUSH_FRONT_MANY,
  // C02
  INS_C, INS_R, INS_D, INS_N, INS_RANGE, INS_INT,
  RINS_C, RINS_R, RINS_D, RINS_N, RINS_RANGE, RINS_INT,
  // C03
  ERASE, ERASE_RANGE, RERASE, RERASE_RANGE, ERASE_BEGIN, ERASE_END, CLEAR,
  // C05
  SET_CAP, RSET_CAP, RESIZE, RESIZE_D, RRESIZE, RRESIZE_D, SET_CAP_OVER, RSET_CAP_OVER, RESIZE_OVER,
  // C06
  WRITE_VIEW, AT_OOR,
  // C08
  LINEARIZE, ROTATE,
  // C04
  ASSIGN_N, ASSIGN_CAP_N, ASSIGN_RANGE, ASSIGN_CAP_RANGE, ASSIGN_INT, ASSIGN_CAP_INT,
  COPY_ASSIGN, SELF_ASSIGN, MOVE_ASSIGN, SWAP, SWAP_FREE,
  CTOR_DEF, CTOR_CAP, CTOR_N, CTOR_CAP_N, CTOR_RANGE, CTOR_CAP_RANGE, CTOR_INT, CTOR_CAP_INT,
  CTOR_COPY, CTOR_MOVE, CTOR_OVER, CTOR_CAP_ITEM,
  // C07
  ITLAWS, ALGO,
  // C21
  COMPARE,
  // iterator pool (C14/C19)
  IT_GET, IT_COPY, IT_ASSIGN, IT_DROP, IT_CONV, IT_END,
  OP_COUNT
};

enum Tag {
  T_NONE = 0, T_CONTENT, T_RET, T_VIEW, T_ITER, T_LIFE, T_ALLOC, T_EXC, T_STRONG, T_NOTHROW, T_MOVE,
  T_STAB, T_COST, T_MEM, T_CMP, T_DBGVALID, T_DBGFILL, T_ASSERT, T_RANGE, T_CAP, T_CRASH, T_HANG,
  T_EXPOSE, T_NOALLOC, T_COUNT
};

struct Op { unsigned short code; unsigned short f; unsigned a, b, c, d; };
enum { MAXOPS = 96 };
// init: cap, mincap, offset, size, other cap, other offset, other size, flags, further rounds over the operations
struct Case { unsigned init[9]; unsigned nops; Op ops[MAXOPS]; };

enum Feat { FE_FAM = 1, FE_WRAP = 2, FE_FULL = 4, FE_EMPTY = 8, FE_THREW = 16, FE_MID = 32, FE_REALLOC = 64,
            FE_OVER = 128, FE_POOL = 256, FE_BOTHSEG = 512, FE_OUTSIDE = 1024 };

struct Result {
  volatile int failed; volatile int tag; volatile int op_index; volatile int op_code;
  volatile unsigned feats; volatile unsigned fired; // last op with fault: did the fault fire
  volatile unsigned long long opcount[OP_COUNT];
  volatile unsigned long long throws_;
  char msg[1600];
};

extern Result* g_res;
extern unsigned char g_family[OP_COUNT]; // ops whose execution state is classified
extern int g_trace;

// implemented by the executor
void exec_case(const Case& c);
const char* exec_config();
unsigned exec_opmask(unsigned char* ok); // ok[code]=1 if supported in this configuration
extern const char* op_names[OP_COUNT];
extern const char* tag_names[T_COUNT];
// Reports a failed check and ends the case. A failure of a kind the running profile does not judge is skipped
// instead when the case can go on, so that it does not hide what the profile does judge.
extern unsigned g_want; // kinds of failures that are judged
#ifdef __GNUC__
__attribute__((format(printf, 2, 3)))
#endif
void fail(int tag, const char* fmt, ...);
#endif
