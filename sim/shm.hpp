#pragma once
#include <cstdint>
namespace sim {
// Shared between the zygote and one run. No pointers.
struct Shm {
    char  plan[1 << 20];
    uint64_t plan_len;
    // results
    uint64_t hash, ntrace, sched_hash, sim_time, steps;
    uint64_t finished;
    uint64_t nviol;
    struct V { char prop[8]; char msg[1000]; } viol[48];
    uint64_t ncnt;
    struct C { char name[48]; uint64_t n; } cnt[128];
    uint64_t nontrivial;          // the run exercised the property (scenario's own rule)
    uint64_t state_hash;          // scenario's digest of what happened
    char note[512];
};
extern Shm* g_shm;
}
