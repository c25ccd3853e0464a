// Which operations each property's generator uses, which oracle families it accepts, and what is non-trivial.
#ifndef CBV_PROFILES_H
#define CBV_PROFILES_H
#include "core.h"
#include <vector>
struct Weight { int op; unsigned w; };
struct Profile {
    const char* id;
    std::vector<Weight> weights;
    std::vector<int> family;
    unsigned tags;
    unsigned nontrivial;
    bool faults;
    bool anyop;      // a failure counts whatever operations the minimal case contains
    unsigned maxops;
    unsigned bigcaps; // percentage of capacities from 64 up to 2163
    bool needs_throw; // only failures of cases in which an injected exception was thrown count
};
const Profile* find_profile(const char* id);
extern unsigned char op_dims[OP_COUNT];   // 1: uses a, 2: uses b, 4: uses the other container
extern unsigned char op_cvars[OP_COUNT];  // number of values of c worth enumerating
#endif
