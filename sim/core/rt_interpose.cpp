// System-call and library seams.  Definitions in the executable take precedence over the
// shared libraries' own, so libstdc++'s calls arrive here too.  Outside a run, and for
// anything that is not simulated, the real function is called.
#include "internal.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>
#undef __THROW
#define __THROW

namespace sim {
bool fiber_done(int id);
void count_fault(const char *);
static IoCfg g_io; static HostCfg g_host;
IoCfg &io() { return g_io; }
HostCfg &host() { return g_host; }
struct MutexSt { int owner = -1; int depth = 0; };
struct RwSt { int writer = -1; int readers = 0; };
static std::map<const void *, MutexSt> *mtx;
static std::map<const void *, RwSt> *rws;
static std::map<const void *, std::vector<int>> *cvs;
static std::map<std::string, std::string> *files;     // durable content
static std::map<int, std::string> *fds;               // fd -> name
static uint64_t thr_base = 0x7100000000ull;
static std::map<int, void *> *thr_ret;
void interpose_begin() {
    mtx = new std::map<const void *, MutexSt>; rws = new std::map<const void *, RwSt>;
    cvs = new std::map<const void *, std::vector<int>>; files = new std::map<std::string, std::string>;
    fds = new std::map<int, std::string>; thr_ret = new std::map<int, void *>;
    g_io = IoCfg(); g_host = HostCfg();
}
void interpose_end() {}
void SimFs::put(const std::string &n, const std::string &b) { NoPreempt np; (*files)[n] = b; }
std::string SimFs::get(const std::string &n) { NoPreempt np; return (*files)[n]; }
bool SimFs::exists(const std::string &n) { NoPreempt np; return files->count(n) != 0; }
void SimFs::remove(const std::string &n) { NoPreempt np; files->erase(n); }
}
using namespace sim;
#define REAL(name) ((decltype(&name)) real_sym(#name))
static void *real_sym(const char *n) {
    static std::map<std::string, void *> *c; 
    static char buf[1]; (void) buf; (void) c;
    void *p = dlsym(RTLD_NEXT, n);
    return p;
}
#define CACHED(name) static decltype(&name) r = REAL(name)
static inline bool simulated() { return active() && !draining(); }

// ------------------------------------------------------------------ threads
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (!simulated()) { CACHED(pthread_create); return r(t, a, f, arg); }
    sync_point();
    if (fault("thread-create-fail", 0)) return EAGAIN;
    NoPreempt np;
    int id = spawn([f, arg] { void *v = f(arg); NoPreempt n; (*thr_ret)[self()] = v; }, "std::thread");
    *t = (pthread_t) (thr_base + (uint64_t) id * 4096);
    return 0;
}
extern "C" pthread_t pthread_self() {
    if (!simulated()) { CACHED(pthread_self); return r(); }
    return (pthread_t) (thr_base + (uint64_t) self() * 4096);
}
extern "C" int pthread_join(pthread_t t, void **ret) {
    if (!simulated() || (uint64_t) t < thr_base || (uint64_t) t > thr_base + (1 << 30)) { CACHED(pthread_join); return r(t, ret); }
    int id = (int) (((uint64_t) t - thr_base) / 4096);
    join(id);
    if (ret) { NoPreempt np; *ret = (*thr_ret)[id]; }
    return 0;
}
extern "C" int pthread_detach(pthread_t t) { if (!simulated()) { CACHED(pthread_detach); return r(t); } return 0; }
extern "C" int sched_yield() { if (!simulated()) { CACHED(sched_yield); return r(); } force_yield(); return 0; }

// ------------------------------------------------------------------ mutexes
static int mtx_type(pthread_mutex_t *m) { return m->__data.__kind & 3; }
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!simulated()) { if (draining()) return 0; CACHED(pthread_mutex_lock); return r(m); }
    sync_point();
    NoPreempt np;
    MutexSt &s = (*mtx)[m];
    if (s.owner == self()) {
        if (mtx_type(m) == PTHREAD_MUTEX_RECURSIVE) { ++s.depth; return 0; }
        violation("self-deadlock", "a thread locks a mutex it already holds");
    }
    if (s.owner >= 0) { probe("mutex-contended"); block_until([m] { return (*mtx)[m].owner < 0; }, "mutex"); }
    s.owner = self(); s.depth = 1;
    return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!simulated()) { if (draining()) return 0; CACHED(pthread_mutex_trylock); return r(m); }
    sync_point();
    NoPreempt np;
    MutexSt &s = (*mtx)[m];
    if (s.owner == self() && mtx_type(m) == PTHREAD_MUTEX_RECURSIVE) { ++s.depth; return 0; }
    if (s.owner >= 0) return EBUSY;
    s.owner = self(); s.depth = 1;
    return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!simulated()) { if (draining()) return 0; CACHED(pthread_mutex_unlock); return r(m); }
    {
        NoPreempt np;
        MutexSt &s = (*mtx)[m];
        if (s.owner != self()) violation("unlock-not-owner", "a thread unlocks a mutex it does not hold");
        if (--s.depth == 0) s.owner = -1;
    }
    sync_point();
    return 0;
}
extern "C" int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (!simulated()) { CACHED(pthread_rwlock_rdlock); return r(m); }
    sync_point(); NoPreempt np; RwSt &s = (*rws)[m];
    if (s.writer >= 0) block_until([m] { return (*rws)[m].writer < 0; }, "rwlock");
    ++s.readers; return 0;
}
extern "C" int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (!simulated()) { CACHED(pthread_rwlock_wrlock); return r(m); }
    sync_point(); NoPreempt np; RwSt &s = (*rws)[m];
    if (s.writer >= 0 || s.readers) block_until([m] { return (*rws)[m].writer < 0 && !(*rws)[m].readers; }, "rwlock");
    s.writer = self(); return 0;
}
extern "C" int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (!simulated()) { CACHED(pthread_rwlock_unlock); return r(m); }
    { NoPreempt np; RwSt &s = (*rws)[m]; if (s.writer == self()) s.writer = -1; else --s.readers; }
    sync_point(); return 0;
}
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!simulated()) { CACHED(pthread_cond_wait); return r(c, m); }
    int me = self();
    { NoPreempt np; (*cvs)[c].push_back(me); }
    pthread_mutex_unlock(m);
    { NoPreempt np; bool spurious = fault("cond-spurious-wakeup", 0.02);
      if (!spurious) block_until([c, me] { for (int x : (*cvs)[c]) if (x == me) return false; return true; }, "condition variable");
      auto &v = (*cvs)[c]; for (size_t i = 0; i < v.size(); ++i) if (v[i] == me) { v.erase(v.begin() + (long) i); break; } }
    return pthread_mutex_lock(m);
}
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
    if (!simulated()) { CACHED(pthread_cond_signal); return r(c); }
    sync_point(); NoPreempt np; auto &v = (*cvs)[c];
    if (!v.empty()) v.erase(v.begin() + (long) sched_rng().below(v.size()));
    return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!simulated()) { CACHED(pthread_cond_broadcast); return r(c); }
    sync_point(); NoPreempt np; (*cvs)[c].clear(); return 0;
}

// ------------------------------------------------------------------ C++ runtime
static std::map<void *, int> *guards;
extern "C" int __cxa_guard_acquire(long long *g) {
    if (*(volatile char *) g) return 0;
    if (!guards) { NoPreempt np; guards = new std::map<void *, int>; }
    if (!simulated()) { (*guards)[g] = 0; return 1; }
    sync_point();
    NoPreempt np;
    for (;;) {
        if (*(volatile char *) g) return 0;
        auto it = guards->find(g);
        if (it == guards->end()) { (*guards)[g] = self(); return 1; }
        if (it->second == self()) violation("recursive-init", "recursive initialisation of a function-local static");
        probe("static-init-contended");
        block_until([g] { return !guards->count(g); }, "static initialiser");
    }
}
extern "C" void __cxa_guard_release(long long *g) { NoPreempt np; *(volatile char *) g = 1; if (guards) guards->erase(g); }
extern "C" void __cxa_guard_abort(long long *g) { NoPreempt np; if (guards) guards->erase(g); }
extern "C" int __cxa_thread_atexit(void (*f)(void *), void *obj, void *dso) {
    if (simulated()) { NoPreempt np; if (self() != 0) { add_tls_dtor(f, obj); } return 0; }
    typedef int (*F)(void (*)(void *), void *, void *);
    static F r = (F) dlsym(RTLD_NEXT, "__cxa_thread_atexit");
    return r(f, obj, dso);
}

// ------------------------------------------------------------------ clocks
static uint64_t sys_base = 1700000000ull * 1000000000ull;
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!simulated()) { CACHED(clock_gettime); return r(id, ts); }
    sync_point();
    uint64_t n = now_ns();
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) n = (uint64_t) ((int64_t) (sys_base + n) + wall_offset_ns());
    ts->tv_sec = (time_t) (n / 1000000000ull); ts->tv_nsec = (long) (n % 1000000000ull);
    return 0;
}
extern "C" int gettimeofday(struct timeval *tv, void *tz) {
    if (!simulated()) { static int (*r)(struct timeval *, void *) = (int (*)(struct timeval *, void *)) real_sym("gettimeofday"); return r(tv, tz); }
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
extern "C" time_t time(time_t *t) {
    if (!simulated()) { static time_t (*r)(time_t *) = (time_t (*)(time_t *)) real_sym("time"); return r(t); }
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec;
}
extern "C" int nanosleep(const struct timespec *a, struct timespec *b) {
    if (!simulated()) { CACHED(nanosleep); return r(a, b); }
    sleep_ns((uint64_t) a->tv_sec * 1000000000ull + (uint64_t) a->tv_nsec); return 0;
}
extern "C" int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    if (!simulated()) { CACHED(clock_nanosleep); return r(c, fl, a, b); }
    uint64_t t = (uint64_t) a->tv_sec * 1000000000ull + (uint64_t) a->tv_nsec;
    if (fl & TIMER_ABSTIME) { uint64_t n = now_ns(); t = t > n ? t - n : 0; }
    sleep_ns(t); return 0;
}
extern "C" int usleep(useconds_t us) { if (!simulated()) { CACHED(usleep); return r(us); } sleep_ns((uint64_t) us * 1000); return 0; }

// ------------------------------------------------------------------ host
extern "C" int gethostname(char *name, size_t len) {
    if (!simulated()) { static int (*r)(char *, size_t) = (int (*)(char *, size_t)) real_sym("gethostname"); return r(name, len); }
    NoPreempt np;
    if (host().hostname_mode == 1) { count_fault("gethostname-fail"); errno = EINVAL; return -1; }
    const std::string &h = host().hostname;
    if (h.size() + 1 > len) {
        // POSIX: truncated, NUL termination unspecified; glibc: ENAMETOOLONG
        count_fault("gethostname-truncated");
        memcpy(name, h.data(), len);
        if (host().hostname_mode == 2) return 0;
        errno = ENAMETOOLONG; return -1;
    }
    memcpy(name, h.c_str(), h.size() + 1);
    return 0;
}

// ------------------------------------------------------------------ files
// /simfs/ and the working directory (relative names) are the simulated file system
static bool is_sim(const char *p) { return p && *p && (*p != '/' || !strncmp(p, SIMFS, strlen(SIMFS))); }
static int sim_open(const char *path, int flags) {
    NoPreempt np;
    if (fault("open-fail", io().open_fail)) { errno = EMFILE; return -1; }
    std::string n = path;
    if (!files->count(n)) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } (*files)[n] = ""; }
    if (flags & O_TRUNC) (*files)[n] = "";
    CACHED(memfd_create);
    int fd = r("simfs", 0);
    static ssize_t (*w)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t)) real_sym("write");
    const std::string &c = (*files)[n];
    size_t o = 0; while (o < c.size()) { ssize_t k = w(fd, c.data() + o, c.size() - o); if (k <= 0) break; o += (size_t) k; }
    lseek(fd, (flags & O_APPEND) ? (off_t) c.size() : 0, SEEK_SET);
    (*fds)[fd] = n;
    return fd;
}
static void flush_back(int fd, size_t pos, const char *b, size_t n) {
    std::string &c = (*files)[(*fds)[fd]];
    if (c.size() < pos + n) c.resize(pos + n);
    memcpy(&c[pos], b, n);
}
static FILE *mem_file(const std::string &content, const char *mode) {
    CACHED(memfd_create);
    int fd = r("simfile", 0);
    static ssize_t (*w)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t)) real_sym("write");
    if (!content.empty()) (void) !w(fd, content.data(), content.size());
    lseek(fd, 0, SEEK_SET);
    return fdopen(fd, mode);
}
static FILE *sim_fopen(const char *path, const char *mode) {
    int fl = 0;
    bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = 0; else if (mode[0] == 'w') fl = O_CREAT | O_TRUNC; else fl = O_CREAT | O_APPEND;
    int fd = sim_open(path, fl);
    if (fd < 0) return nullptr;
    (void) plus;
    return fdopen(fd, mode);
}
static FILE *do_fopen(const char *sym, const char *path, const char *mode) {
    if (simulated()) {
        NoPreempt np;
        if (is_sim(path)) return sim_fopen(path, mode);
        if (!strcmp(path, "/proc/self/statm")) {
            switch (host().statm_mode) {
                case 1: count_fault("statm-open-fail"); errno = EMFILE; return nullptr;
                case 2: count_fault("statm-garbled"); return mem_file("garbage\n", mode);
                case 3: count_fault("statm-empty"); return mem_file("", mode);
                default: return mem_file("5000 1234 800 10 0 900 0\n", mode);
            }
        }
    }
    auto r = (FILE * (*)(const char *, const char *)) real_sym(sym);
    return r(path, mode);
}
extern "C" FILE *fopen(const char *p, const char *m) { return do_fopen("fopen", p, m); }
extern "C" FILE *fopen64(const char *p, const char *m) { return do_fopen("fopen64", p, m); }
extern "C" int open(const char *p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (simulated() && is_sim(p)) return sim_open(p, fl);
    static int (*r)(const char *, int, ...) = (int (*)(const char *, int, ...)) real_sym("open");
    return r(p, fl, m);
}
extern "C" int open64(const char *p, int fl, ...) {
    mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, fl); m = va_arg(ap, mode_t); va_end(ap); }
    if (simulated() && is_sim(p)) return sim_open(p, fl);
    static int (*r)(const char *, int, ...) = (int (*)(const char *, int, ...)) real_sym("open64");
    return r(p, fl, m);
}
static bool mine(int fd) { return simulated() && fds && fds->count(fd); }
extern "C" ssize_t read(int fd, void *b, size_t n) {
    static ssize_t (*r)(int, void *, size_t) = (ssize_t (*)(int, void *, size_t)) real_sym("read");
    if (!mine(fd)) return r(fd, b, n);
    NoPreempt np;
    if (fault("read-eintr", io().eintr_read)) { errno = EINTR; return -1; }
    if (fault("read-eio", io().eio_read)) { errno = EIO; return -1; }
    if (n > 1 && fault("short-read", io().short_read)) n = 1 + (size_t) fault_rng().below(n - 1);
    return r(fd, b, n);
}
static ssize_t sim_write(int fd, const char *b, size_t n) {
    static ssize_t (*w)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t)) real_sym("write");
    if (fault("write-eintr", io().eintr_write)) { errno = EINTR; return -1; }
    if (fault("write-enospc", io().enospc)) { errno = ENOSPC; return -1; }
    if (fault("write-eio", io().eio_write)) { errno = EIO; return -1; }
    if (n > 1 && fault("short-write", io().short_write)) n = 1 + (size_t) fault_rng().below(n - 1);
    size_t pos = (size_t) lseek(fd, 0, SEEK_CUR);
    ssize_t k = w(fd, b, n);
    if (k > 0) flush_back(fd, pos, b, (size_t) k);
    return k;
}
extern "C" ssize_t write(int fd, const void *b, size_t n) {
    if (mine(fd)) { NoPreempt np; return sim_write(fd, (const char *) b, n); }
    static ssize_t (*r)(int, const void *, size_t) = (ssize_t (*)(int, const void *, size_t)) real_sym("write");
    return r(fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
    if (mine(fd)) {
        NoPreempt np;
        std::string all; for (int i = 0; i < c; ++i) all.append((const char *) v[i].iov_base, v[i].iov_len);
        if (all.empty()) return 0;
        return sim_write(fd, all.data(), all.size());
    }
    static ssize_t (*r)(int, const struct iovec *, int) = (ssize_t (*)(int, const struct iovec *, int)) real_sym("writev");
    return r(fd, v, c);
}
extern "C" int close(int fd) {
    if (mine(fd)) { NoPreempt np; fds->erase(fd); }
    static int (*r)(int) = (int (*)(int)) real_sym("close");
    return r(fd);
}
extern "C" int fclose(FILE *f) {
    static int (*r)(FILE *) = (int (*)(FILE *)) real_sym("fclose");
    if (simulated() && fds) { NoPreempt np; fds->erase(fileno(f)); }
    return r(f);
}
