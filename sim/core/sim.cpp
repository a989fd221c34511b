#include <fcntl.h>
#include "internal.h"
#include <sys/single_threaded.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <exception>
#include <link.h>
#include <memory>
#include <stdexcept>
#include <sys/mman.h>
#include <unistd.h>

extern "C" void sim_switch(void **save, void *to);

namespace sim {

Hot hot;
Rng wl;
static Rng r_sched, r_fault, r_task, r_knob, r_clock;
Rng &sched_rng() { return r_sched; }
Rng &fault_rng() { return r_fault; }
Rng &task_rng() { return r_task; }

uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
    x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull;
    x ^= x >> 27; x *= 0x94D049BB133111EBull;
    x ^= x >> 31;
    return x;
}
void Rng::seed(uint64_t x, const char *stream) {
    uint64_t h = 1469598103934665603ull;
    for (const char *c = stream; *c; ++c) { h ^= (unsigned char) *c; h *= 1099511628211ull; }
    s[0] = mix(x, h); s[1] = mix(s[0], x ^ 0xD1B54A32D192ED03ull);
    if (!(s[0] | s[1])) s[0] = 1;
    for (int i = 0; i < 4; ++i) next();
}
uint64_t Rng::next() {
    uint64_t a = s[0], b = s[1], r = a + b;
    s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return r;
}
uint64_t Rng::gap(double mean) {
    if (mean <= 1.0) return 1;
    double u = unit(); if (u >= 1.0) u = 0.999999999;
    double g = std::log(1.0 - u) / std::log(1.0 - 1.0 / mean);
    if (!(g < 1e9)) g = 1e9;
    return 1 + (uint64_t) g;
}

std::string str(const char *fmt, ...) {
    char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    return buf;
}

// ------------------------------------------------------------------ fibers
struct Eh { void *caught; unsigned int uncaught; };

enum FState { F_READY, F_BLOCKED, F_SLEEP, F_DONE };
struct Fiber {
    int id = 0;
    FState st = F_READY;
    void *sp = nullptr;
    char *stack = nullptr; size_t stack_sz = 0;
    std::function<void()> body;
    std::function<bool()> pred;
    std::string what, name;
    uint64_t wake = 0;
    uint64_t ev = 0;
    uint64_t stalled_until = 0;
    int64_t prio = 0; uint64_t last_sw = ~0ull;
    int nopreempt = 0;
    Eh eh{nullptr, 0};
    std::vector<char> tls;
    std::vector<TlsDtor> dtors;
};

enum Strategy { SG_RANDOM = 0, SG_PCT = 1, SG_STALL = 2, SG_SEQ = 3, SG_BURST = 4 };

struct State {
    bool running = false;
    bool ending = false;
    Result *res = nullptr;
    const Override *ov = nullptr;
    uint64_t seed = 0;
    std::vector<std::unique_ptr<Fiber>> f;
    int cur = 0;
    uint64_t total = 0, last_ev = 0, since_switch = 0;
    uint64_t soft = 2000000, hard = 6000000;
    bool fair = false;
    int strategy = 0;
    double gap[K_N] = {5, 200, 100, 3};
    double plain_lo = 30, plain_hi = 3000, atom_lo = 1.5, atom_hi = 60;
    uint64_t quantum = 20000;
    int64_t low_prio = 0;
    uint64_t hash = 0, il = 0, sh = 0;
    uint64_t adv_ns = 0; int64_t wall = 0;
    bool faults_on = true;
    double alloc_rate = 0;
    std::map<std::string, int> caps;
    std::map<std::string, int> knob_uses;
    std::map<std::string, uint64_t> occ, fired;
    std::map<std::pair<int, uint64_t>, int> exp[2];
    std::set<std::pair<std::string, uint32_t>> expf;
    int workers = 4; double split = 0.8;
    int stalls_left = 0; double share_gap = 0; bool ambush = false;
};
static State *S;

// TLS of the executable, swapped per fiber
static char *tls_base = nullptr; static size_t tls_size = 0; static std::vector<char> tls_init;
static int phdr_cb(struct dl_phdr_info *info, size_t, void *) {
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            tls_base = (char *) info->dlpi_tls_data; tls_size = info->dlpi_phdr[i].p_memsz;
            size_t fs = info->dlpi_phdr[i].p_filesz;
            tls_init.assign(tls_size, 0);
            memcpy(tls_init.data(), (char *) info->dlpi_addr + info->dlpi_phdr[i].p_vaddr, fs);
        }
    return 1; // only the first object: the executable
}
bool tls_range(const void *p) { return (char *) p >= tls_base && (char *) p < tls_base + tls_size; }

bool active() { return S && S->running; }
bool draining() { return S && S->ending; }
int self() { return S ? S->cur : 0; }
int fibers_created() { return S ? (int) S->f.size() : 0; }
int workers() { return S->workers; }
void set_workers(int n) { S->workers = n; }
double split_prob() { return S->split; }
static Fiber &cur() { return *S->f[S->cur]; }

static void account() {
    uint64_t d = hot.ev - S->last_ev;
    S->total += d; S->since_switch += d; S->last_ev = hot.ev;
}

void nopreempt_enter() { if (!active()) return; Fiber &c = cur(); if (c.nopreempt++ == 0) hot.on = 0; }
void nopreempt_leave() {
    if (!active()) return;
    Fiber &c = cur();
    if (--c.nopreempt == 0) hot.on = S->running ? 1 : 0;
}

static void draw(int k) {
    if (S->ov && S->ov->explicit_sched) { hot.countdown[k] = 1; return; }
    double g = S->gap[k];
    if (S->fair) g = k == K_ATOMIC ? 8 : k == K_PLAIN ? 200 : k == K_FUNC ? 100 : 2;
    else if (S->strategy == SG_SEQ) g = 1e9;
    uint64_t v = r_sched.gap(g);
    hot.countdown[k] = (int64_t) std::min<uint64_t>(v, S->quantum);
}

static void swap_to(int to, bool forced) {
    Fiber &a = cur(); Fiber &b = *S->f[to];
    account();
    Result *r = S->res;
    r->switches++; if (!forced) r->preempts++;
    if (r->n_sw < MAX_SW) { SwitchRec &s = r->sw[r->n_sw++]; s.fiber = a.id; s.forced = forced; s.ev = hot.ev; s.target = to; s.pad = 0; }
    else r->sw_overflow = 1;
    uint64_t h = mix(((uint64_t) a.id << 32) | (uint32_t) to, hot.ev * 2 + (forced ? 1 : 0));
    S->hash = mix(S->hash, h); S->il = mix(S->il, h);
    a.ev = hot.ev; a.last_sw = hot.ev;
    Eh *g = (Eh *) (void *) __cxxabiv1::__cxa_get_globals();
    a.eh = *g;
    if (tls_size) memcpy(a.tls.data(), tls_base, tls_size);
    S->cur = to; S->since_switch = 0; hot.fid = (uint32_t) to + 1; ++hot.epoch;
    hot.ev = b.ev; S->last_ev = b.ev;
    hot.on = b.nopreempt == 0 ? 1 : 0;
    *g = b.eh;
    if (tls_size) memcpy(tls_base, b.tls.data(), tls_size);
    if (b.st != F_READY) { b.st = F_READY; b.pred = nullptr; }
    sim_switch(&a.sp, b.sp);
}

static bool runnable(Fiber &f) {
    if (f.st == F_READY) return true;
    if (f.st == F_BLOCKED) {
        return f.pred && f.pred();   // stays blocked until it is actually chosen
    }
    if (f.st == F_SLEEP) return now_ns() >= f.wake;
    return false;
}

// choose who runs next; cur may or may not be eligible
static int choose(bool include_cur, bool forced) {
    std::vector<int> c;
    for (auto &p : S->f) {
        if (p->id == S->cur && !include_cur) continue;
        if (runnable(*p)) c.push_back(p->id);
    }
    if (c.empty()) return -1;
    if (S->ov && S->ov->explicit_sched) {
        auto &m = S->exp[forced ? 1 : 0];
        auto it = m.find({S->cur, hot.ev});
        if (it != m.end()) for (int x : c) if (x == it->second) return x;
        if (!forced) return -1;
        return c[0];
    }
    if (S->fair) return c[r_sched.below(c.size())];
    // stalled fibers only run if nothing else can
    std::vector<int> d;
    for (int x : c) if (S->f[x]->stalled_until <= S->total) d.push_back(x);
    if (d.empty()) d = c;
    if (S->strategy == SG_PCT) {
        int best = d[0];
        for (int x : d) if (S->f[x]->prio > S->f[best]->prio) best = x;
        return best;
    }
    if (S->strategy == SG_SEQ) return d[0];
    return d[r_sched.below(d.size())];
}

static void no_progress() {
    if (S->ending) return;
    std::string d = str("no completion after %llu simulated steps (fair scheduling since step %llu);",
                        (unsigned long long) S->total, (unsigned long long) S->soft);
    for (auto &p : S->f) if (p->st != F_DONE)
        d += str(" fiber %d(%s) %s%s", p->id, p->name.c_str(), p->st == F_READY ? "running" : "blocked:", p->st == F_BLOCKED ? p->what.c_str() : "");
    violation("no-progress", d);
}

void slow_event(int kind) {
    account();
    // guard against re-entry from our own (uninstrumented) code is not needed
    hot.on = 0;
    if (S->total > S->hard) no_progress();
    if (!S->fair && S->total > S->soft) { S->fair = true; S->faults_on = false; for (int k = 0; k < K_N; ++k) draw(k); }
    bool expl = S->ov && S->ov->explicit_sched;
    if (expl) {
        hot.countdown[kind] = 1;
        bool quant = false;
        auto it = S->exp[0].find({S->cur, hot.ev});
        if (it == S->exp[0].end()) {
            if (S->since_switch > 4 * S->quantum) quant = true; else { hot.on = 1; return; }
        }
        int t = quant ? -1 : choose(false, false);
        if (quant) { std::vector<int> c; for (auto &p : S->f) if (p->id != S->cur && runnable(*p)) c.push_back(p->id);
            if (!c.empty()) { t = c[0]; for (int x : c) if (x > S->cur) { t = x; break; } } S->since_switch = 0; }
        if (t >= 0 && t != S->cur) { swap_to(t, false); }
        hot.on = 1;
        return;
    }
    bool natural = true;
    if (S->strategy == SG_SEQ && !S->fair) natural = S->since_switch >= S->quantum;
    draw(kind);
    if (!natural) { hot.on = 1; return; }
    if (!S->fair) {
        if (S->strategy == SG_PCT) cur().prio = --S->low_prio;
        if (S->strategy == SG_STALL && S->stalls_left > 0 && r_sched.coin(0.08)) {
            --S->stalls_left;
            uint64_t len = 50ull << r_sched.below(9);
            cur().stalled_until = S->total + len;
            S->fired["stalled-thread"]++;
        }
    }
    int t = choose(S->strategy == SG_PCT, false);
    if (t >= 0 && t != S->cur) swap_to(t, false);
    hot.on = 1;
}

ShareEnt share_tab[1 << 15]; uintptr_t share_root;
static bool share_off() { return S->fair || (S->ov && S->ov->explicit_sched) || cur().last_sw == hot.ev; }   // at most one switch per event: replays identify it by the event
void share_hit(ShareEnt *e) {
    account();
    hot.share_left = (int64_t) r_sched.gap(S->share_gap);
    if (share_off()) return;
    hot.on = 0;
    if (S->strategy == SG_PCT) cur().prio = --S->low_prio;
    // ambush: the write waits, with luck until another fiber wants to write there as well
    if (e && S->ambush && !e->waiter && r_sched.coin(0.5)) { e->waiter = (uint32_t) S->cur + 1; cur().stalled_until = S->total + (200ull << r_sched.below(12)); probe("ambush"); }
    int t = choose(S->strategy == SG_PCT, false);
    if (t >= 0 && t != S->cur) swap_to(t, false);
    if (e && e->waiter == hot.fid) e->waiter = 0;
    hot.on = 1;
}
void share_trap(ShareEnt *e) {
    account();
    uint32_t w = e->waiter - 1; e->waiter = 0;
    if (w >= S->f.size() || S->f[w]->stalled_until <= S->total) return;
    hot.on = 0; probe("ambush-met");
    if (!share_off() && r_sched.coin(0.5)) {       // the suspended write goes first; otherwise it comes after ours
        Fiber &f = *S->f[w]; f.stalled_until = 0;
        if (S->strategy == SG_PCT) f.prio = cur().prio + 1;
        if (runnable(f)) swap_to((int) w, false);
    }
    hot.on = 1;
}

void force_yield() {
    if (!active() || cur().nopreempt) return;
    ++hot.ev; account();
    if (S->total > S->hard) no_progress();
    hot.on = 0;
    int t = choose(false, true);
    if (t >= 0 && t != S->cur) swap_to(t, true);
    hot.on = cur().nopreempt == 0;
}

// current fiber cannot continue
static void must_switch() {
    for (;;) {
        int t = choose(true, true);
        if (t >= 0) {
            if (t != S->cur) swap_to(t, true);       // we come back only when somebody chose us
            Fiber &c = cur(); c.st = F_READY; c.pred = nullptr;
            return;
        }
        // nobody runnable: jump the clock to the next sleeper
        uint64_t best = ~0ull;
        for (auto &p : S->f) if (p->st == F_SLEEP) best = std::min(best, p->wake);
        if (best != ~0ull) { uint64_t n = now_ns(); if (best > n) S->adv_ns += best - n; continue; }
        std::string d = "deadlock:";
        for (auto &p : S->f) if (p->st == F_BLOCKED) d += str(" fiber %d(%s) waits for %s;", p->id, p->name.c_str(), p->what.c_str());
        violation("deadlock", d);
    }
}

void block_until(const std::function<bool()> &pred, const char *what) {
    if (!active()) return;
    Fiber &c = cur();
    int np = c.nopreempt; // blocking releases the no-preempt section by construction
    hot.on = 0; ++hot.ev;
    if (pred()) { hot.on = c.nopreempt == 0; return; }
    if (S->ending) { return; }
    account();
    if (S->total > S->hard) no_progress();
    c.st = F_BLOCKED; c.pred = pred; c.what = what;
    must_switch();
    c.nopreempt = np;
    hot.on = c.nopreempt == 0;
}

void sleep_ns(uint64_t ns) {
    if (!active()) return;
    Fiber &c = cur();
    hot.on = 0; ++hot.ev; account();
    c.st = F_SLEEP; c.wake = now_ns() + ns;
    must_switch();
    hot.on = c.nopreempt == 0;
}

static std::string cur_exception() {
    std::string n = "unknown", w;
    if (auto *t = abi::__cxa_current_exception_type()) {
        int st = 0; char *d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        n = d ? d : t->name(); free(d);
    }
    try { throw; } catch (std::exception &e) { w = e.what(); } catch (...) {}
    return n + (w.empty() ? "" : ": " + w);
}

static void fiber_main() {
    hot.on = 1;
    Fiber &c = cur();
    try { c.body(); }
    catch (...) { NoPreempt np; std::string d = cur_exception(); violation("uncaught-exception", str("thread %d (%s) terminated by an exception: %s", c.id, c.name.c_str(), d.c_str())); }
    while (!c.dtors.empty()) { auto d = c.dtors.back(); c.dtors.pop_back(); d.f(d.arg); }
    hot.on = 0; ++hot.ev; ++c.nopreempt;
    { auto b = std::move(c.body); c.body = nullptr; }
    c.st = F_DONE;
    account();
    for (;;) must_switch();
}


int spawn(std::function<void()> f, const char *name) {
    NoPreempt np;
    auto p = std::make_unique<Fiber>();
    p->id = (int) S->f.size(); p->name = name; p->body = std::move(f);
    p->stack_sz = STACK_SZ;
    if (p->id >= 4095) violation("too-many-threads", "more than 4095 threads were created");
    p->stack = (char *) mmap((void *) (STACKS + (uintptr_t) p->id * STACK_SZ), STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    mprotect(p->stack, 4096, PROT_NONE);
    uintptr_t top = (uintptr_t) (p->stack + STACK_SZ) & ~15ull;
    void **sp = (void **) top;
    *--sp = nullptr;                       // alignment / fake return of fiber_main
    *--sp = (void *) &fiber_main;          // ret target: rsp%16==8 on entry
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    *--sp = nullptr; *--sp = nullptr;
    uint32_t mx; asm volatile("stmxcsr %0" : "=m"(mx));
    uint16_t cw; asm volatile("fnstcw %0" : "=m"(cw));
    memcpy(&sp[0], &mx, 4); memcpy(&sp[1], &cw, 2);
    p->sp = sp;
    p->tls = tls_init;
    p->prio = (int64_t) (r_sched.below(1000000) + 1);
    int id = p->id;
    S->f.push_back(std::move(p));
    S->res->fibers = S->f.size();
    return id;
}
bool fiber_done(int id) { return S->f[id]->st == F_DONE; }
void join(int id) { sync_point(); block_until([id] { return S->f[id]->st == F_DONE; }, "join"); }

void add_tls_dtor(void (*f)(void *), void *arg) { cur().dtors.push_back({f, arg}); }

void parallel(const std::vector<std::function<void()>> &fs) {
    std::vector<int> ids;
    { NoPreempt np; for (auto &f : fs) ids.push_back(spawn(f, "client")); }
    for (int i : ids) join(i);
}

// ------------------------------------------------------------------ clock
uint64_t now_ns() { return S ? 1000000000ull + S->adv_ns + (S->total + (hot.ev - S->last_ev)) * 10 : 0; }
int64_t wall_offset_ns() { return S ? S->wall : 0; }
void advance_ns(uint64_t ns) { S->adv_ns += ns; }
void jump_wall(int64_t ns) { S->wall += ns; }
void jump_wall_clock(int64_t ns) { NoPreempt np; jump_wall(ns); S->fired["wall-clock-jump"]++; }
int open_files() { NoPreempt np; int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1; return n; }

// ------------------------------------------------------------------ knobs, faults
static void rec_knob(const char *name, int64_t v, int64_t lo, int64_t hi, int kind) {
    Result *r = S->res;
    for (uint32_t i = 0; i < r->n_kn; ++i) if (!strcmp(r->knobs[i].name, name)) { r->knobs[i].val = v; return; }
    if (r->n_kn < MAX_KN) { KV &k = r->knobs[r->n_kn++]; snprintf(k.name, sizeof k.name, "%s", name); k.val = v; k.lo = lo; k.hi = hi; k.kind = kind; }
}
// a knob that is drawn repeatedly gets a name per draw: replays pin each draw
static std::string knob_name(const char *name) { int n = ++S->knob_uses[name]; return n == 1 ? std::string(name) : std::string(name) + "#" + std::to_string(n); }
int64_t knob(const char *base, int64_t lo, int64_t hi) {
    NoPreempt np; std::string full = knob_name(base); const char *name = full.c_str();
    int64_t v = r_knob.range(lo, hi);
    if (S->ov) { auto it = S->ov->knobs.find(name); if (it != S->ov->knobs.end()) v = std::min(hi, std::max(lo, it->second)); }
    rec_knob(name, v, lo, hi, 0);
    return v;
}
static bool leak_run = false;
bool leaks_checked() { return leak_run; }
int64_t knob_pick(const char *base, std::initializer_list<int64_t> ch) {
    NoPreempt np; std::string full = knob_name(base); const char *name = full.c_str();
    std::vector<int64_t> c(ch);
    size_t i = r_knob.below(c.size());
    if (S->ov) { auto it = S->ov->knobs.find(name); if (it != S->ov->knobs.end()) { for (size_t j = 0; j < c.size(); ++j) if (c[j] == it->second) i = j; } }
    rec_knob(name, c[i], c[0], c[i], 1);
    return c[i];
}
bool knob_bool(const char *base, double p) {
    NoPreempt np; std::string full = knob_name(base); const char *name = full.c_str();
    bool v = r_knob.coin(p);
    if (S->ov) { auto it = S->ov->knobs.find(name); if (it != S->ov->knobs.end()) v = it->second != 0; }
    rec_knob(name, v, 0, 1, 0);
    return v;
}
void faults_enable(bool on) { S->faults_on = on; }
void fault_cap(const char *kind, int n) { NoPreempt np; S->caps[kind] = n; }
bool fault(const char *kind, double rate) {
    if (!active() || rate <= 0) return false;
    NoPreempt np;
    if (!S->faults_on || S->ending) return false;
    uint64_t o = S->occ[kind]++;
    bool hit = r_fault.coin(rate);
    if (S->ov && S->ov->explicit_faults) hit = S->expf.count({kind, (uint32_t) o}) != 0;
    if (!hit) return false;
    auto c = S->caps.find(kind);
    if (c != S->caps.end()) { if (c->second <= 0) return false; --c->second; }
    S->fired[kind]++;
    Result *r = S->res;
    if (r->n_fa < MAX_FA) { FaultRec &f = r->fa[r->n_fa++]; snprintf(f.kind, sizeof f.kind, "%s", kind); f.occ = (uint32_t) o; f.pad = 0; }
    for (const char *k = kind; *k; ++k) S->hash = mix(S->hash, (uint64_t) *k);
    S->hash = mix(S->hash, o);
    return true;
}
uint64_t faults_fired(const char *kind) { NoPreempt np; auto it = S->fired.find(kind); return it == S->fired.end() ? 0 : it->second; }
void alloc_faults(double rate) { S->alloc_rate = rate; }
double alloc_fault_rate() { return S ? S->alloc_rate : 0; }
void count_fault(const char *kind) { if (active()) { NoPreempt np; S->fired[kind]++; } }

void probe(const char *name, uint64_t n) {
    if (!active()) return;
    NoPreempt np; Result *r = S->res;
    for (uint32_t i = 0; i < r->n_probes; ++i) if (!strcmp(r->probes[i].name, name)) { r->probes[i].n += n; return; }
    if (r->n_probes < MAX_CNT) { auto &c = r->probes[r->n_probes++]; snprintf(c.name, sizeof c.name, "%s", name); c.n = n; }
}
void note_state(uint64_t h) { S->sh = mix(S->sh, h); S->hash = mix(S->hash, h); }
static bool g_verbose = getenv("SIM_VERBOSE") != nullptr;
void log_event(const char *fmt, ...) {
    NoPreempt np;
    char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char *c = buf; *c; ++c) S->hash = mix(S->hash, (uint64_t) *c);
    if (g_verbose) fprintf(stderr, "[%8llu f%d] %s\n", (unsigned long long) S->total, S->cur, buf);
}

void set_limits(uint64_t soft, uint64_t hard) { S->soft = soft; S->hard = hard; }
static void draw_gaps() {
    auto lg = [](double lo, double hi) { return std::exp(std::log(lo) + r_sched.unit() * (std::log(hi) - std::log(lo))); };
    S->gap[K_PLAIN] = lg(S->plain_lo, S->plain_hi);
    S->gap[K_ATOMIC] = lg(S->atom_lo, S->atom_hi);
    S->gap[K_FUNC] = lg(S->plain_lo, S->plain_hi);
    S->gap[K_SYNC] = lg(1.2, 8);
    if (r_sched.coin(0.25)) S->gap[K_PLAIN] = S->gap[K_FUNC] = 1e9;      // atomics only
    for (int k = 0; k < K_N; ++k) draw(k);
}
void set_gap(double plo, double phi, double alo, double ahi) {
    NoPreempt np;
    S->plain_lo = plo; S->plain_hi = phi; S->atom_lo = alo; S->atom_hi = ahi; draw_gaps();
}

// ------------------------------------------------------------------ end of a run
static void finish(int status) {
    Result *r = S->res;
    account();
    r->events = S->total; r->sim_ns = now_ns() - 1000000000ull;
    S->hash = mix(S->hash, S->total); S->hash = mix(S->hash, S->sh); S->hash = mix(S->hash, (uint64_t) status);
    for (char *c = r->cls; *c; ++c) S->hash = mix(S->hash, (uint64_t) *c);
    r->hash = S->hash; r->il_hash = S->il; r->state_hash = S->sh;
    r->n_faults = 0;
    for (auto &p : S->fired) if (r->n_faults < MAX_CNT) { auto &c = r->faults[r->n_faults++]; snprintf(c.name, sizeof c.name, "%s", p.first.c_str()); c.n = p.second; }
    r->status = status;
}

[[noreturn]] void violation(const std::string &cls, const std::string &detail) {
    hot.on = 0;
    if (!S || !S->res) { fprintf(stderr, "violation outside a run: %s %s\n", cls.c_str(), detail.c_str()); _exit(3); }
    S->ending = true; S->running = false;
    snprintf(S->res->cls, sizeof S->res->cls, "%s", cls.c_str());
    snprintf(S->res->detail, sizeof S->res->detail, "%s", detail.c_str());
    if (g_verbose) fprintf(stderr, "VIOL %s: %s\n", cls.c_str(), detail.c_str());
    if (getenv("SIM_ABORT")) abort();
    finish(ST_VIOL);
    _exit(0);
}

void execute(uint64_t seed, const Prop &p, const Override *ov, Result *res) {
    static State st; S = &st; // one run per process
    __libc_single_threaded = 0;     // our threads are fibers: shared_ptr must keep its atomic reference counts
    dl_iterate_phdr(phdr_cb, nullptr);
    res->status = ST_RUNNING; res->seed = seed;
    snprintf(res->scenario, sizeof res->scenario, "%s", p.scenario);
    S->res = res; S->ov = ov; S->seed = seed;
    wl.seed(seed, "workload"); r_fault.seed(seed, "fault"); r_knob.seed(seed, "knob"); r_clock.seed(seed, "clock");
    uint64_t ss = ov && ov->has_sched_seed ? ov->sched_seed : seed;
    r_sched.seed(ss, "sched"); r_task.seed(ss, "task");
    if (ov) {
        for (auto &s : ov->sw) S->exp[s.forced ? 1 : 0][{s.fiber, s.ev}] = s.target;
        for (auto &f : ov->fa) S->expf.insert({f.kind, f.occ});
    }
    auto root = std::make_unique<Fiber>();
    root->id = 0; root->name = "root"; root->tls.assign(tls_size, 0);
    S->f.reserve(4096);
    S->f.push_back(std::move(root)); S->cur = 0; res->fibers = 1;
    S->running = true;
    cur().nopreempt = 1;
    S->strategy = (int) knob_pick("sim.strategy", {SG_SEQ, SG_RANDOM, SG_RANDOM, SG_RANDOM, SG_PCT, SG_PCT, SG_STALL, SG_STALL, SG_RANDOM});
    S->workers = (int) knob("sim.workers", 1, 6);
    S->split = (double) knob("sim.split", 0, 10) / 10.0;
    S->stalls_left = 1 + (int) r_sched.below(4);
    int fill = (int) knob_pick("sim.fill", {0, 0xAB, 0xFF, 0x01});
    S->share_gap = (double) knob_pick("sim.share", {0, 0, 5, 50, 500});
    share_root = (uintptr_t) __builtin_frame_address(0); hot.fid = 1; hot.share_window = 2u << r_sched.below(16); hot.share_reads = r_sched.coin(0.5);
    draw_gaps();
    S->ambush = knob_bool("sim.ambush", 0.6);
    if (S->share_gap > 0 && !(ov && ov->explicit_sched)) { hot.share = 1; hot.share_left = (int64_t) r_sched.gap(S->share_gap); }
    leak_run = p.flags & CHECK_LEAKS;
    heap_begin(seed, fill);
    interpose_begin();
    cur().nopreempt = 0; hot.on = 1;
    try { p.body(); }
    catch (...) { NoPreempt np; violation("uncaught-exception", "the operation under test threw " + cur_exception()); }
    if ((p.flags & CHECK_LEAKS) && live_bytes() > 0) { NoPreempt np; violation("leak", str("%lld bytes are still allocated when everything has been destroyed", (long long) live_bytes()) + live_list()); }
    hot.on = 0; S->ending = true; S->running = false;
    finish(ST_OK);
}

// ------------------------------------------------------------------ registry
static std::vector<Prop> &reg() { static std::vector<Prop> r; return r; }
const std::vector<Prop> &registry() { return reg(); }
Reg::Reg(const char *id, const char *scenario, double w, std::function<void()> body, int flags) {
    reg().push_back(Prop{id, std::move(body), w, scenario, flags});
}
Alias::Alias(const char *id, std::initializer_list<const char *> of, int flags) {
    std::vector<Prop> add;
    for (auto &p : reg()) for (auto *o : of) if (!strcmp(o, p.id)) { Prop q = p; q.id = id; q.flags |= flags; std::string n = std::string(o) + "_" + p.scenario; for (char &c : n) c = (char) tolower(c); q.scenario = strdup(n.c_str()); add.push_back(q); }
    reg().insert(reg().end(), add.begin(), add.end());
}
const Prop *pick_scenario(const std::string &id, uint64_t seed, const std::string &only) {
    double sum = 0;
    for (auto &p : reg()) if (id == p.id && (only.empty() || only == p.scenario)) sum += p.weight;
    Rng r; r.seed(seed, "scenario");
    double x = r.unit() * sum;
    const Prop *last = nullptr;
    for (auto &p : reg()) if (id == p.id && (only.empty() || only == p.scenario)) { last = &p; x -= p.weight; if (x < 0) return last; }
    return last;
}
}
