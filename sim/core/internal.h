#pragma once
#include "sim.h"
#include <cstring>

namespace sim {

struct SwitchRec { int32_t fiber; int32_t forced; uint64_t ev; int32_t target; int32_t pad; };
struct FaultRec { char kind[24]; uint32_t occ; uint32_t pad; };
struct KV { char name[40]; int64_t val; int64_t lo, hi; int kind; };

enum { MAX_SW = 1 << 18, MAX_FA = 4096, MAX_KN = 96, MAX_CNT = 96 };
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOL = 2, ST_RUNNING = 3, ST_ERROR = 4 };

// one simulated run's outcome, in shared memory (child writes, zygote reads)
struct Result {
    int status;
    uint64_t seed;
    uint64_t hash;          // determinism hash of the whole execution
    uint64_t il_hash;       // interleaving hash
    uint64_t state_hash;    // abstract outcome hash
    uint64_t events, switches, preempts, fibers, sim_ns;
    char scenario[64];
    char cls[160];
    char detail[6000];
    uint32_t n_sw, n_fa, n_kn, n_faults, n_probes;
    uint32_t sw_overflow;
    KV knobs[MAX_KN];
    struct Cnt { char name[40]; uint64_t n; } faults[MAX_CNT], probes[MAX_CNT];
    FaultRec fa[MAX_FA];
    SwitchRec sw[MAX_SW];
};

struct Override {
    bool has_sched_seed = false; uint64_t sched_seed = 0;
    std::map<std::string, int64_t> knobs;
    bool explicit_sched = false;
    std::vector<SwitchRec> sw;
    bool explicit_faults = false;
    std::vector<FaultRec> fa;
};

// run one scenario in this process (never returns on violation: _exit(0))
void execute(uint64_t seed, const Prop &p, const Override *ov, Result *res);
const std::vector<Prop> &registry();
const Prop *pick_scenario(const std::string &id, uint64_t seed, const std::string &only);

// interposition / heap back ends
void heap_begin(uint64_t seed, int fill);
void heap_end();
bool heap_check(const void *p, size_t n, bool write);   // false => bad access
const char *heap_why();
void interpose_begin();
void interpose_end();
extern bool g_heap_check_on;
extern uintptr_t g_heap_lo, g_heap_hi;
void heap_access_slow(const void *p, size_t n, bool write);

struct TlsDtor { void (*f)(void *); void *arg; };
void add_tls_dtor(void (*f)(void *), void *arg);
bool draining();
}
