// The simulated TBB scheduler.
#include "tbb/simtbb.h"
namespace tbb {
namespace simrt {
struct Worker { int fiber; int depth; Group *cur; };
struct Pool {
    std::vector<Job> q;
    std::map<int, int> idx;          // fiber -> worker index
    std::map<int, int> depth;
    std::map<int, Group *> cur;
    int started = 0;
};
static Pool *P;
static Pool &pool() { if (!P) P = new Pool; return *P; }
int worker_index() { sim::NoPreempt np; Pool &p = pool(); auto i = p.idx.find(sim::self()); if (i != p.idx.end()) return i->second; int n = (int) p.idx.size(); p.idx[sim::self()] = n; return n; }
bool cancelled(Group *g) { return g->cancelled; }
Group *current() { return pool().cur[sim::self()]; }
static void run_job(Job &j) {
    Pool &p = pool(); int me = sim::self(); Group *save;
    { sim::NoPreempt np; save = p.cur[me]; p.cur[me] = j.g; ++p.depth[me]; }
    if (!j.g->cancelled) {
        try { j.run(); }
        catch (...) { sim::NoPreempt np; sim::probe("task-exception"); if (!j.g->ex) j.g->ex = std::current_exception(); j.g->cancelled = true; }
    }
    { sim::NoPreempt np; p.cur[me] = save; --p.depth[me]; j.run = nullptr; }
    sim::sync_point();
    { sim::NoPreempt np; --j.g->pending; }
}
// index of the job this fiber takes, or -1
static int take(Group *only) {
    Pool &p = pool(); std::vector<int> c;
    for (size_t i = 0; i < p.q.size(); ++i) if (!only || p.q[i].g == only) c.push_back((int) i);
    if (c.empty()) return -1;
    // newest first most of the time (depth-first, like a worker's own deque), else any (a steal)
    if (sim::task_rng().coin(0.5)) return c.back();
    return c[sim::task_rng().below(c.size())];
}
static void worker_loop() {
    worker_index();
    for (;;) {
        sim::NoPreempt np;
        Pool &p = pool();
        if (p.q.empty()) sim::block_until([&p] { return !p.q.empty(); }, "idle TBB worker");
        int i = take(nullptr); if (i < 0) continue;
        Job j = std::move(p.q[(size_t) i]); p.q.erase(p.q.begin() + i);
        sim::nopreempt_leave();
        run_job(j);
        sim::nopreempt_enter();
    }
}
void submit(Job j) {
    sim::sync_point();
    sim::NoPreempt np; Pool &p = pool();
    while (p.started < sim::workers() - 1) { ++p.started; sim::spawn(worker_loop, "tbb-worker"); }
    ++j.g->pending;
    p.q.push_back(std::move(j));
}
void wait(Group &g) {
    Pool &p = pool(); int me = sim::self();
    for (;;) {
        sim::sync_point();
        sim::NoPreempt np;
        if (g.pending == 0) break;
        // a waiting thread helps: with its own group's jobs, or with anybody's (nested stealing)
        bool any = p.depth[me] < 12;
        int i = take(any ? nullptr : &g);
        if (i < 0) {
            Group *gp = &g;
            sim::block_until([&p, gp, any] { if (gp->pending == 0) return true; if (any) return !p.q.empty(); for (auto &j : p.q) if (j.g == gp) return true; return false; }, "tbb wait_for_all");
            continue;
        }
        if (p.q[(size_t) i].g != &g) sim::probe("nested-steal");
        Job j = std::move(p.q[(size_t) i]); p.q.erase(p.q.begin() + i);
        sim::nopreempt_leave();
        run_job(j);
        sim::nopreempt_enter();
    }
    if (g.ex) { std::exception_ptr e = g.ex; g.ex = nullptr; g.cancelled = false; std::rethrow_exception(e); }
}
}

// ------------------------------------------------------------------ classic tasks
static std::map<int, task::alloc_tag> *tags;
task::alloc_tag &task::pending_tag() { sim::NoPreempt np; if (!tags) tags = new std::map<int, task::alloc_tag>; return (*tags)[sim::self()]; }
task::alloc_tag task::allocate_continuation() { task *p = pfx_.parent; pfx_.parent = nullptr; return {p, false}; }
task::alloc_tag task::allocate_additional_child_of(task &t) { sim::sync_point(); t.pfx_.ref.fetch_add(1); return {&t, true}; }

// all classic tasks share one bookkeeping group: waiting is by reference count
static simrt::Group *tg() { sim::NoPreempt np; static simrt::Group *g = new simrt::Group; return g; }
static std::exception_ptr *texc() { sim::NoPreempt np; static std::exception_ptr *e = new std::exception_ptr; return e; }
void task::run_one(task *t) {
    while (t) {
        t->pfx_.recycled = t->pfx_.reexec = false;
        task *next = nullptr; bool dead = false;
        { sim::NoPreempt np; dead = *texc() != nullptr; }
        if (!dead) {
            try { next = t->execute(); }
            catch (...) { sim::NoPreempt np; sim::probe("task-exception"); if (!*texc()) *texc() = std::current_exception(); }
        }
        sim::sync_point();
        if (t->pfx_.recycled) {
            if (t->pfx_.reexec) { if (next && next != t) { spawn(*t); t = next; continue; } continue; }
            if (next == t) continue;
            t = next; continue;       // recycled as child/continuation and spawned elsewhere
        }
        task *p = t->pfx_.parent;
        delete t;
        if (p) {
            long left = p->pfx_.ref.fetch_sub(1) - 1;
            // a continuation whose last child finished becomes runnable; waiters keep an extra reference
            if (left == 0 && !p->pfx_.in_exec && !next) next = p;
            else if (left == 0 && !p->pfx_.in_exec && next) spawn(*p);
        }
        t = next;
    }
}
void task::spawn(task &t) { task *p = &t; simrt::submit(simrt::Job{[p] { run_one(p); }, tg()}); }
void task::spawn(task_list &l) { auto v = l.v; l.v.clear(); for (task *t : v) spawn(*t); }
void task::wait_for_all() {
    using namespace simrt;
    pfx_.in_exec = true;
    Pool &p = pool(); int me = sim::self();
    for (;;) {
        sim::sync_point();
        sim::NoPreempt np;
        if (pfx_.ref.load() == 1) break;
        bool any = p.depth[me] < 12;
        int i = take(any ? nullptr : tg());
        if (i < 0) {
            task *self = this;
            sim::block_until([&p, self, any] { if (self->pfx_.ref.load() == 1) return true; if (any) return !p.q.empty(); for (auto &j : p.q) if (j.g == tg()) return true; return false; }, "tbb task::wait_for_all");
            continue;
        }
        Job j = std::move(p.q[(size_t) i]); p.q.erase(p.q.begin() + i);
        sim::nopreempt_leave();
        run_job(j);
        sim::nopreempt_enter();
    }
    pfx_.ref.store(0);
    pfx_.in_exec = false;
    { sim::NoPreempt np; if (*texc() && !pfx_.parent) { std::exception_ptr e = *texc(); *texc() = nullptr; std::rethrow_exception(e); } }
}
void task::spawn_and_wait_for_all(task &t) { pfx_.in_exec = true; spawn(t); wait_for_all(); }
}
