// Deterministic simulator core.
//
// One process, one OS thread.  Every "thread" of the system under test is a fiber; the
// only source of interleaving is the seeded scheduler below.  Code under test is compiled
// with -fsanitize=thread *for its callbacks only*; rt_tsan.cpp supplies the callbacks, so
// every atomic operation, every plain memory access and every function entry of /repo's
// code is a potential preemption point.  rt_interpose.cpp supplies the pthread, clock,
// host and file system calls.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- random numbers
struct Rng {
    uint64_t s[2];
    void seed(uint64_t x, const char *stream);
    uint64_t next();
    // [0,n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // [lo,hi]
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) below((uint64_t) (hi - lo + 1)); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool coin(double p) { return unit() < p; }
    // geometric gap with mean m (>=1)
    uint64_t gap(double mean);
};

extern Rng wl;     // workload stream (drawn by harness bodies)
Rng &sched_rng();  // scheduler stream
Rng &fault_rng();  // fault stream
Rng &task_rng();   // task placement stream (range splitting, which task a worker takes)

// ---------------------------------------------------------------- events
enum Kind { K_ATOMIC = 0, K_PLAIN = 1, K_FUNC = 2, K_SYNC = 3, K_N = 4 };

struct Hot {                       // touched by every instrumented access
    int on = 0;                    // inside a run and preemptible (nopreempt==0)
    int64_t countdown[K_N] = {0, 0, 0, 0};
    uint64_t ev = 0;               // events of the current fiber
    int share = 0;                 // preempt at accesses to memory other fibers touched recently
    int64_t share_left = 0;
    uint32_t fid = 0, epoch = 0, share_window = 0; int share_reads = 0;
};
extern Hot hot;
void slow_event(int kind);
struct ShareEnt;
void share_hit(ShareEnt *write);
void share_trap(ShareEnt *e);
// which fiber touched (and wrote) a word last, by switch count: only a heuristic that tells where a preemption is interesting
struct ShareEnt { uint32_t fid, epoch, wepoch, prev, pepoch, waiter; };   // prev: who touched it before fid; waiter: fiber suspended right before it writes here
extern ShareEnt share_tab[1 << 15];
extern uintptr_t share_root;                     // start of the root thread's stack
static const uintptr_t STACKS = 0x610000000000ull, STACK_SZ = 1 << 20, SIMHEAP = 0x500000000000ull, SIMHEAP_SZ = 8ull << 30;
extern "C" char __data_start, _end;
inline void shared_access(const void *p, bool w) {
    if (__builtin_expect(!hot.share, 1) || !hot.on) return;
    uintptr_t a = (uintptr_t) p;                 // only memory whose address is the same in every process takes part
    if (a - SIMHEAP >= SIMHEAP_SZ && a - STACKS >= 4096 * STACK_SZ && !(a >= (uintptr_t) &__data_start && a < (uintptr_t) &_end)) {
        if (share_root - a < (8u << 20)) a = share_root - a; else return;
    }
    ShareEnt &e = share_tab[((a >> 3) * 0x9E3779B97F4A7C15ull) >> 49];
    bool hit;
    if (e.fid != hot.fid) {
        hit = hot.epoch - e.epoch <= hot.share_window && (w || hot.share_reads || (e.wepoch && hot.epoch - e.wepoch <= hot.share_window));
        e.prev = e.fid; e.pepoch = e.epoch; e.fid = hot.fid;
    } else hit = w && e.prev && hot.epoch - e.pepoch <= hot.share_window;      // a word it read before, and somebody else before that: read-modify-write
    e.epoch = hot.epoch; if (w) { e.wepoch = hot.epoch; e.prev = 0; if (e.waiter && e.waiter != hot.fid) { share_trap(&e); return; } }
    if (hit && --hot.share_left <= 0) share_hit(w ? &e : nullptr);
}

inline void event(int kind) {
    if (__builtin_expect(!hot.on, 1)) return;
    ++hot.ev;
    if (__builtin_expect(--hot.countdown[kind] <= 0, 0)) slow_event(kind);
}

// shim code must not be preempted in the middle of its own bookkeeping
void nopreempt_enter();
void nopreempt_leave();
struct NoPreempt {
    int was;
    NoPreempt() : was(hot.on) { nopreempt_enter(); }
    ~NoPreempt() { nopreempt_leave(); if (!was) hot.on = 0; }   // inside the scheduler it stays off
    NoPreempt(const NoPreempt &) = delete;
};

bool active();          // a run is in progress
inline void sync_point() { event(K_SYNC); }
void force_yield();     // certainly let somebody else run if possible

// ---------------------------------------------------------------- fibers
int self();                                     // 0 = root
int spawn(std::function<void()> f, const char *name = "");
void join(int id);
void block_until(const std::function<bool()> &pred, const char *what);
int fibers_created();
// run n bodies as threads and wait for all
void parallel(const std::vector<std::function<void()>> &fs);
void sleep_ns(uint64_t ns);

// ---------------------------------------------------------------- simulated clock
uint64_t now_ns();      // monotonic, simulated
int64_t wall_offset_ns();
void advance_ns(uint64_t ns);
void jump_wall_clock(int64_t ns);   // settimeofday / NTP step; counted as an injected fault
int open_files();       // open file descriptors of the process

// ---------------------------------------------------------------- knobs & faults
// A knob is a named per-run parameter; drawn from the seed unless the replay file
// overrides it.  lo is the "simplest" value, minimisation moves towards it.
int64_t knob(const char *name, int64_t lo, int64_t hi);
int64_t knob_pick(const char *name, std::initializer_list<int64_t> choices);
bool knob_bool(const char *name, double p);

// Fault point: true if the fault named `kind` fires now.  `rate` is the probability.
bool fault(const char *kind, double rate);
void faults_enable(bool on);
// cap on fired faults of a kind in this run
void fault_cap(const char *kind, int n);
uint64_t faults_fired(const char *kind);
void alloc_faults(double rate);                 // operator new throws std::bad_alloc
int64_t live_bytes();            // allocated by code under test and not released
int64_t live_blocks();
std::string live_list();         // with SIM_LEAKS set: every such block and who allocated it
struct HeapMark { int64_t bytes, blocks; };

// ---------------------------------------------------------------- verdicts
// cls: short stable class of the violation (the minimiser keeps it)
[[noreturn]] void violation(const std::string &cls, const std::string &detail);
// a documented known finding: counted, run ends, no violation
void probe(const char *name, uint64_t n = 1);   // "this rare condition was reached"
void note_state(uint64_t h);                    // abstract state / outcome hash
void log_event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t mix(uint64_t a, uint64_t b);

// Bracket code whose only purpose is checking, so it never perturbs the schedule.
struct Quiet : NoPreempt {};

// ---------------------------------------------------------------- simulated file system
struct SimFs {
    static void put(const std::string &name, const std::string &bytes);
    static std::string get(const std::string &name);
    static bool exists(const std::string &name);
    static void remove(const std::string &name);
};
#define SIMFS "/simfs/"
struct IoCfg { double short_read = 0, short_write = 0, eio_read = 0, eio_write = 0, enospc = 0, eintr_read = 0, eintr_write = 0, open_fail = 0; };
IoCfg &io();
struct HostCfg { int hostname_mode = 0; std::string hostname = "simhost"; int statm_mode = 0; };
HostCfg &host();

// ---------------------------------------------------------------- harness registration
struct Prop {
    const char *id;
    // one simulated execution of the scenario; runs as fiber 0
    std::function<void()> body;
    double weight;
    const char *scenario;
    int flags;              // 1 = expects faults config
};
struct Reg {
    Reg(const char *id, const char *scenario, double weight, std::function<void()> body, int flags = 0);
};
enum { CHECK_LEAKS = 2 };        // memory the code under test still holds when the scenario is over is a violation
bool leaks_checked();           // whether this run will be judged that way
// the scenarios registered so far for the given properties, run for property `id` as well
struct Alias { Alias(const char *id, std::initializer_list<const char *> of, int flags); };
#define SIM_SCENARIO(ID, NAME, W) \
    static void scen_##ID##_##NAME(); \
    static sim::Reg reg_##ID##_##NAME(#ID, #NAME, W, &scen_##ID##_##NAME); \
    static void scen_##ID##_##NAME()

#define SIM_CHECK(cond, cls, detail) \
    do { if (!(cond)) { sim::NoPreempt np__; sim::violation(cls, detail); } } while (0)

// limits
void set_limits(uint64_t soft_events, uint64_t hard_events);
// mean gap (events) between preemptions is drawn log-uniformly from [lo,hi]
void set_gap(double plain_lo, double plain_hi, double atomic_lo, double atomic_hi);
std::string str(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int workers();                                   // number of simulated TBB workers of this run
void set_workers(int n);
double split_prob();
}
