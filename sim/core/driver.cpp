// Batch driver: forks one pristine child per simulated run, aggregates, gates and minimises.
#include "internal.h"
#include <algorithm>
#include <chrono>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <regex>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
typedef std::chrono::steady_clock Clk;
static double since(Clk::time_point t) { return std::chrono::duration<double>(Clk::now() - t).count(); }

struct Known { std::string prop, id, cls; std::regex detail, scen; std::string text; };

struct ScenAgg { char name[64]; uint64_t runs, known, events, switches, preempts, fibers, sim_ns; };
enum { HSET = 1 << 21 };
struct Agg {
    ScenAgg scen[64]; uint32_t n_scen;
    Result::Cnt faults[MAX_CNT], probes[MAX_CNT]; uint32_t n_faults, n_probes;
    uint64_t known_hits[64]; uint64_t known_seed[64];
    uint64_t runs, nonzero_switch;
    uint64_t il_distinct, st_distinct; int full;
    uint64_t viol; uint64_t crash_retry;
    uint64_t il[HSET], st[HSET];
};
struct Shared { volatile int stop; volatile uint64_t next; };

template<class T> static T *shm(size_t n = 1) {
    void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(4); }
    return (T *) p;
}
static void reset(Result *r) {
    r->status = ST_NONE; r->hash = r->il_hash = r->state_hash = 0; r->events = r->switches = r->preempts = r->fibers = r->sim_ns = 0;
    r->scenario[0] = r->cls[0] = r->detail[0] = 0;
    r->n_sw = r->n_fa = r->n_kn = r->n_faults = r->n_probes = 0; r->sw_overflow = 0;
}
static unsigned g_wall = 60;
// one run in a child; afterwards r holds the verdict (crashes become violations)
static void run_child(uint64_t seed, const Prop &p, const Override *ov, Result *r) {
    reset(r);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = (rlim_t) 24 << 30; setrlimit(RLIMIT_AS, &rl);
        alarm(g_wall);
        if (!getenv("SIM_VERBOSE")) { int nul = open("/dev/null", O_WRONLY); if (nul >= 0) { dup2(nul, 1); dup2(nul, 2); } }
        execute(seed, p, ov, r);
        _exit(0);
    }
    int st = 0;
    if (pid < 0) { r->status = ST_ERROR; snprintf(r->detail, sizeof r->detail, "fork failed"); return; }
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == ST_RUNNING || r->status == ST_NONE) {
        int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
        r->seed = seed; snprintf(r->scenario, sizeof r->scenario, "%s", p.scenario);
        if (sig == SIGKILL || (WIFEXITED(st) && WEXITSTATUS(st) == 4)) { r->status = ST_ERROR; snprintf(r->detail, sizeof r->detail, "child killed or could not start (status %d)", st); return; }
        r->status = ST_VIOL;
        if (sig == SIGALRM) { snprintf(r->cls, sizeof r->cls, "hang"); snprintf(r->detail, sizeof r->detail, "the run did not finish within %u s of wall-clock time outside any preemptible step", g_wall); }
        else if (sig) { snprintf(r->cls, sizeof r->cls, "crash"); snprintf(r->detail, sizeof r->detail, "the process died with signal %d (%s)", sig, strsignal(sig)); }
        else { snprintf(r->cls, sizeof r->cls, "crash"); snprintf(r->detail, sizeof r->detail, "the process exited with status %d in the middle of the run", WEXITSTATUS(st)); }
        r->hash = mix(r->n_sw, (uint64_t) sig); for (uint32_t i = 0; i < r->n_sw; ++i) r->hash = mix(r->hash, mix((uint64_t) r->sw[i].fiber * 1000 + (uint64_t) r->sw[i].target, r->sw[i].ev));
    }
}
static void bump(Result::Cnt *a, uint32_t &n, const Result::Cnt &c) {
    for (uint32_t i = 0; i < n; ++i) if (!strcmp(a[i].name, c.name)) { a[i].n += c.n; return; }
    if (n < MAX_CNT) a[n++] = c;
}
static bool hins(uint64_t *t, uint64_t h, uint64_t &cnt) {
    if (!h) h = 1;
    if (cnt > HSET * 7 / 8) return false;
    size_t i = h & (HSET - 1);
    while (t[i] && t[i] != h) i = (i + 1) & (HSET - 1);
    if (t[i] == h) return false;
    t[i] = h; ++cnt; return true;
}
static void aggregate(Agg *a, const Result *r, int known) {
    ScenAgg *s = nullptr;
    for (uint32_t i = 0; i < a->n_scen; ++i) if (!strcmp(a->scen[i].name, r->scenario)) s = &a->scen[i];
    if (!s && a->n_scen < 64) { s = &a->scen[a->n_scen++]; snprintf(s->name, sizeof s->name, "%s", r->scenario); }
    if (s) { s->runs++; s->events += r->events; s->switches += r->switches; s->preempts += r->preempts; s->fibers += r->fibers; s->sim_ns += r->sim_ns; if (known >= 0) s->known++; }
    a->runs++;
    if (r->preempts) a->nonzero_switch++;
    if (known >= 0) { a->known_hits[known]++; if (!a->known_seed[known]) a->known_seed[known] = r->seed; }
    for (uint32_t i = 0; i < r->n_faults; ++i) bump(a->faults, a->n_faults, r->faults[i]);
    for (uint32_t i = 0; i < r->n_probes; ++i) bump(a->probes, a->n_probes, r->probes[i]);
    uint64_t kh = 0; for (uint32_t i = 0; i < r->n_kn; ++i) kh = mix(kh, (uint64_t) r->knobs[i].val);
    if (r->preempts || r->n_fa) hins(a->il, mix(r->il_hash, kh), a->il_distinct);
    hins(a->st, mix(r->state_hash, 7), a->st_distinct);
}

// ------------------------------------------------------------------ json helpers
static std::string esc(const std::string &s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char) c; }
    return o;
}
// replay files are line oriented: trivially diffable and parseable
static void write_replay(const std::string &path, const std::string &prop, const std::string &scen, uint64_t seed, const Override &ov, const Result *r) {
    std::ofstream f(path);
    f << "# deterministic-simulation replay; run: check.py replay <this file>\n";
    f << "property " << prop << "\nscenario " << scen << "\nseed " << seed << "\n";
    if (ov.has_sched_seed) f << "sched_seed " << ov.sched_seed << "\n";
    for (auto &k : ov.knobs) f << "knob " << k.first << " " << k.second << "\n";
    if (ov.explicit_faults) { f << "explicit_faults\n"; for (auto &x : ov.fa) f << "fault " << x.kind << " " << x.occ << "\n"; }
    if (ov.explicit_sched) { f << "explicit_schedule\n"; for (auto &x : ov.sw) f << "switch " << x.fiber << " " << x.forced << " " << x.ev << " " << x.target << "\n"; }
    f << "expect_class " << r->cls << "\nexpect_hash " << r->hash << "\n";
    std::string d = r->detail; std::replace(d.begin(), d.end(), '\n', ' ');
    f << "detail " << d << "\n";
}
static bool read_replay(const std::string &path, std::string &prop, std::string &scen, uint64_t &seed, Override &ov, std::string &cls, uint64_t &hash) {
    std::ifstream f(path); if (!f) return false; std::string l;
    while (std::getline(f, l)) {
        std::istringstream s(l); std::string w; s >> w;
        if (w == "property") s >> prop; else if (w == "scenario") s >> scen; else if (w == "seed") s >> seed;
        else if (w == "sched_seed") { ov.has_sched_seed = true; s >> ov.sched_seed; }
        else if (w == "knob") { std::string n; int64_t v; s >> n >> v; ov.knobs[n] = v; }
        else if (w == "explicit_faults") ov.explicit_faults = true;
        else if (w == "explicit_schedule") ov.explicit_sched = true;
        else if (w == "fault") { FaultRec x; memset(&x, 0, sizeof x); std::string n; s >> n >> x.occ; snprintf(x.kind, sizeof x.kind, "%s", n.c_str()); ov.fa.push_back(x); }
        else if (w == "switch") { SwitchRec x; memset(&x, 0, sizeof x); s >> x.fiber >> x.forced >> x.ev >> x.target; ov.sw.push_back(x); }
        else if (w == "expect_class") { s >> std::ws; std::getline(s, cls); }
        else if (w == "expect_hash") s >> hash;
    }
    return true;
}
static std::vector<Known> load_known(const std::string &path, const std::string &prop) {
    // lines: known|<property>|<finding id>|<class>|<scenario regex>|<detail regex>|<text>
    std::vector<Known> k; std::ifstream f(path); std::string l;
    while (std::getline(f, l)) {
        if (l.compare(0, 6, "known|")) continue;
        std::vector<std::string> p; std::string cur; for (char c : l) { if (c == '|' && p.size() < 6) { p.push_back(cur); cur.clear(); } else cur += c; } p.push_back(cur);
        if (p.size() < 7 || p[1] != prop) continue;
        Known x; x.prop = p[1]; x.id = p[2]; x.cls = p[3]; x.scen = std::regex(p[4]); x.detail = std::regex(p[5]); x.text = p[6];
        k.push_back(x);
    }
    return k;
}
static int match_known(const std::vector<Known> &k, const Result *r) {
    for (size_t i = 0; i < k.size(); ++i)
        if (k[i].cls == r->cls && std::regex_search(r->scenario, k[i].scen) && std::regex_search(r->detail, k[i].detail)) return (int) i;
    return -1;
}
// ------------------------------------------------------------------ minimiser
static std::vector<Known> g_known;
static Result *g_scratch;
static bool try_ov(uint64_t seed, const Prop &p, const Override &ov, const std::string &cls, Result *out) {
    run_child(seed, p, &ov, out);
    return out->status == ST_VIOL && cls == out->cls && match_known(g_known, out) < 0;
}
static void pin(Override &ov, const Result *r) {
    ov.knobs.clear(); for (uint32_t i = 0; i < r->n_kn; ++i) ov.knobs[r->knobs[i].name] = r->knobs[i].val;
}
static void minimise(uint64_t seed, const Prop &p, Override &best, const std::string &cls, double budget) {
    auto t0 = Clk::now(); Result *r = g_scratch;
    // 1. shrink knobs, re-searching a few schedules for each candidate
    if (!try_ov(seed, p, best, cls, r)) return;
    pin(best, r);
    std::vector<KV> kn(r->knobs, r->knobs + r->n_kn);
    bool progress = true;
    int rounds = 0;
    while (progress && since(t0) < budget * 0.5 && rounds++ < 4) {
        progress = false;
        for (auto &k : kn) {
            if (since(t0) > budget * 0.5) break;
            if (!strcmp(k.name, "sim.strategy") || !strcmp(k.name, "sim.fill")) continue;
            int64_t v = best.knobs[k.name]; if (v == k.lo) continue;
            std::vector<int64_t> cand{k.lo};
            if (k.kind == 0) { int64_t d = v - k.lo; for (int64_t s = d / 2; s >= 1; s /= 2) cand.push_back(v - s); }
            bool hit = false;
            for (int64_t c : cand) {
                Override o = best; o.knobs[k.name] = c;
                for (int i = 0; i < 12 && since(t0) < budget * 0.5; ++i) {
                    if (i) { o.has_sched_seed = true; o.sched_seed = seed * 1000003 + (uint64_t) i; }
                    if (try_ov(seed, p, o, cls, r)) { best = o; pin(best, r); best.knobs[k.name] = c; hit = true; break; }
                }
                if (hit) break;
            }
            progress |= hit;
        }
    }
    // 2. explicit schedule and faults
    Override e = best;
    if (!try_ov(seed, p, best, cls, r)) return;
    if (r->sw_overflow || r->n_sw > 60000) return;
    e.explicit_faults = true; e.fa.assign(r->fa, r->fa + r->n_fa);
    if (try_ov(seed, p, e, cls, r)) best = e; else return;
    e.explicit_sched = true; e.sw.assign(r->sw, r->sw + r->n_sw);
    if (!try_ov(seed, p, e, cls, r)) return;
    best = e;
    // 3. ddmin over switches, then faults
    auto dd = [&](auto get) {
        size_t n = 2;
        while (since(t0) < budget) {
            auto &v = get(best); size_t sz = v.size(); if (sz == 0) break;
            n = std::min(n, sz); bool red = false; size_t chunk = (sz + n - 1) / n;
            for (size_t i = 0; i < sz && since(t0) < budget; i += chunk) {
                Override o = best; auto &w = get(o);
                w.erase(w.begin() + (long) i, w.begin() + (long) std::min(sz, i + chunk));
                if (try_ov(seed, p, o, cls, r)) { best = o; n = std::max<size_t>(n - 1, 2); red = true; break; }
            }
            if (!red) { if (chunk <= 1) break; n = std::min(n * 2, sz); }
        }
    };
    dd([](Override &o) -> std::vector<SwitchRec> & { return o.sw; });
    dd([](Override &o) -> std::vector<FaultRec> & { return o.fa; });
    // drop entries that never fire: keep what the final run actually used
    if (try_ov(seed, p, best, cls, r) && !r->sw_overflow) {
        Override o = best; std::vector<SwitchRec> used;
        for (auto &s : o.sw) for (uint32_t i = 0; i < r->n_sw; ++i) if (r->sw[i].fiber == s.fiber && r->sw[i].ev == s.ev && r->sw[i].target == s.target) { used.push_back(s); break; }
        o.sw = used; if (try_ov(seed, p, o, cls, r)) best = o;
    }
}
// run `--file` in a fresh process; returns true if same class and hash
static bool fresh(const char *exe, const std::string &file, std::string &out) {
    std::string cmd = std::string(exe) + " replay --file '" + file + "' 2>&1";
    FILE *f = popen(cmd.c_str(), "r"); if (!f) return false; char b[512]; out.clear();
    while (fgets(b, sizeof b, f)) out += b;
    int st = pclose(f);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static std::string arg(int c, char **v, const char *n, const char *d) { for (int i = 1; i + 1 < c; ++i) if (!strcmp(v[i], n)) return v[i + 1]; return d; }

int main(int argc, char **argv) {
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string mode = argc > 1 ? argv[1] : "";
    std::string prop = arg(argc, argv, "--prop", ""), only = arg(argc, argv, "--scenario", "");
    uint64_t base = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    g_wall = (unsigned) atoi(arg(argc, argv, "--wall", "60").c_str());
    g_scratch = shm<Result>();
    char exe[4096]; ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[el > 0 ? el : 0] = 0;
    if (mode == "list") { for (auto &p : registry()) printf("%s %s %g\n", p.id, p.scenario, p.weight); return 0; }
    if (mode == "one") {
        const Prop *p = pick_scenario(prop, base, only); if (!p) { fprintf(stderr, "no such property\n"); return 2; }
        run_child(base, *p, nullptr, g_scratch); Result *r = g_scratch;
        printf("seed %" PRIu64 " scenario %s status %d class [%s] hash %016" PRIx64 " events %" PRIu64 " switches %" PRIu64 " preempts %" PRIu64 " fibers %" PRIu64 "\n%s\n", base, r->scenario, r->status, r->cls, r->hash, r->events, r->switches, r->preempts, r->fibers, r->detail);
        for (uint32_t i = 0; i < r->n_kn; ++i) printf("  knob %s=%" PRId64 "\n", r->knobs[i].name, r->knobs[i].val);
        for (uint32_t i = 0; i < r->n_probes; ++i) printf("  probe %s=%" PRIu64 "\n", r->probes[i].name, r->probes[i].n);
        for (uint32_t i = 0; i < r->n_faults; ++i) printf("  fault %s=%" PRIu64 "\n", r->faults[i].name, r->faults[i].n);
        return 0;
    }
    if (mode == "direct") { // no fork: for gdb
        const Prop *p = pick_scenario(prop, base, only); if (!p) return 2;
        execute(base, *p, nullptr, g_scratch); printf("status %d\n", g_scratch->status); return 0;
    }
    if (mode == "hashes") { // determinism evidence: seed -> hash
        uint64_t n = strtoull(arg(argc, argv, "--count", "100").c_str(), nullptr, 10);
        for (uint64_t i = 0; i < n; ++i) { const Prop *p = pick_scenario(prop, base + i, only); run_child(base + i, *p, nullptr, g_scratch); printf("%" PRIu64 " %s %d %016" PRIx64 "\n", base + i, g_scratch->scenario, g_scratch->status, g_scratch->hash); }
        return 0;
    }
    if (mode == "replay") {
        std::string scen, cls; uint64_t seed = 0, hash = 0; Override ov; std::string file = arg(argc, argv, "--file", "");
        if (!read_replay(file, prop, scen, seed, ov, cls, hash)) { fprintf(stderr, "cannot read %s\n", file.c_str()); return 2; }
        const Prop *p = pick_scenario(prop, seed, scen); if (!p) { fprintf(stderr, "unknown scenario\n"); return 2; }
        run_child(seed, *p, &ov, g_scratch);
        printf("status %d class [%s] expected [%s] hash %" PRIu64 " expected %" PRIu64 "\n%s\n", g_scratch->status, g_scratch->cls, cls.c_str(), g_scratch->hash, hash, g_scratch->detail);
        return g_scratch->status == ST_VIOL && cls == g_scratch->cls && hash == g_scratch->hash ? 0 : 1;
    }
    if (mode != "run") { fprintf(stderr, "usage: run|one|replay|hashes|list\n"); return 2; }

    uint64_t count = strtoull(arg(argc, argv, "--count", "1000").c_str(), nullptr, 10);
    double maxt = atof(arg(argc, argv, "--time", "60").c_str()), mint = atof(arg(argc, argv, "--mintime", "0").c_str());
    int nw = atoi(arg(argc, argv, "--workers", "8").c_str());
    std::string out = arg(argc, argv, "--out", "/dev/null"), rdir = arg(argc, argv, "--replays", "/tmp");
    g_known = load_known(arg(argc, argv, "--known", ""), prop);
    if (!pick_scenario(prop, 1, only)) { fprintf(stderr, "no scenario for %s\n", prop.c_str()); return 2; }
    auto *sh = shm<Shared>(); auto *agg = shm<Agg>((size_t) nw); auto *viol = shm<Result>((size_t) nw);
    auto t0 = Clk::now();
    std::vector<pid_t> kids;
    for (int w = 0; w < nw; ++w) {
        pid_t pid = fork();
        if (pid == 0) {
            Result *r = &viol[w];
            for (;;) {
                uint64_t i = __sync_fetch_and_add(&sh->next, 1);
                double el2 = since(t0);
                if (sh->stop || el2 > maxt || (i >= count && el2 > mint)) { reset(r); break; }
                uint64_t seed = base * 1000000007ull + i;
                const Prop *p = pick_scenario(prop, seed, only);
                run_child(seed, *p, nullptr, r);
                int k = -1;
                if (r->status == ST_VIOL && (k = match_known(g_known, r)) < 0) { agg[w].viol++; aggregate(&agg[w], r, -1); sh->stop = 1; break; }
                if (r->status == ST_ERROR) { sh->stop = 2; break; }
                aggregate(&agg[w], r, k);
            }
            _exit(0);
        }
        kids.push_back(pid);
    }
    for (pid_t k : kids) waitpid(k, nullptr, 0);
    double wall = since(t0);
    // merge
    Agg *A = shm<Agg>();
    for (int w = 0; w < nw; ++w) {
        Agg &a = agg[w]; A->runs += a.runs; A->nonzero_switch += a.nonzero_switch; A->viol += a.viol;
        for (uint32_t i = 0; i < a.n_scen; ++i) {
            ScenAgg *s = nullptr; for (uint32_t j = 0; j < A->n_scen; ++j) if (!strcmp(A->scen[j].name, a.scen[i].name)) s = &A->scen[j];
            if (!s) { s = &A->scen[A->n_scen++]; memcpy(s->name, a.scen[i].name, 64); }
            s->runs += a.scen[i].runs; s->known += a.scen[i].known; s->events += a.scen[i].events; s->switches += a.scen[i].switches; s->preempts += a.scen[i].preempts; s->fibers += a.scen[i].fibers; s->sim_ns += a.scen[i].sim_ns;
        }
        for (uint32_t i = 0; i < a.n_faults; ++i) bump(A->faults, A->n_faults, a.faults[i]);
        for (uint32_t i = 0; i < a.n_probes; ++i) bump(A->probes, A->n_probes, a.probes[i]);
        for (int i = 0; i < 64; ++i) { A->known_hits[i] += a.known_hits[i]; if (!A->known_seed[i]) A->known_seed[i] = a.known_seed[i]; }
        if (a.il_distinct) for (size_t i = 0; i < HSET; ++i) if (a.il[i]) hins(A->il, a.il[i], A->il_distinct);
        if (a.st_distinct) for (size_t i = 0; i < HSET; ++i) if (a.st[i]) hins(A->st, a.st[i], A->st_distinct);
    }
    int rc = 0; std::string vjson = "null";
    if (sh->stop == 2) { fprintf(stderr, "error: a simulated run could not be executed\n"); for (int w = 0; w < nw; ++w) if (viol[w].status == ST_ERROR) fprintf(stderr, "  %s\n", viol[w].detail); rc = 3; }
    else if (sh->stop == 1) {
        // gate: re-run the seed, compare hash; minimise; fresh-process replay of the minimised file
        rc = 3;
        for (int w = 0; w < nw && rc == 3; ++w) {
            Result *v = &viol[w]; if (v->status != ST_VIOL || match_known(g_known, v) >= 0) continue;
            std::string cls = v->cls, detail = v->detail, scen = v->scenario; uint64_t seed = v->seed, hash = v->hash;
            const Prop *p = pick_scenario(prop, seed, scen);
            run_child(seed, *p, nullptr, g_scratch);
            if (g_scratch->status != ST_VIOL || cls != g_scratch->cls || hash != g_scratch->hash) {
                fprintf(stderr, "error: seed %" PRIu64 " (%s) did not reproduce in-process: [%s] vs [%s], hash %" PRIx64 " vs %" PRIx64 "\n", seed, scen.c_str(), cls.c_str(), g_scratch->cls, hash, g_scratch->hash);
                continue;
            }
            Override plain; pin(plain, g_scratch); Override best = plain;
            minimise(seed, *p, best, cls, atof(arg(argc, argv, "--mintime-budget", "40").c_str()));
            std::string f = rdir + "/" + prop + "-" + scen + "-" + std::to_string(seed) + ".replay", o;
            bool ok = false;
            for (const Override *cand : {(const Override *) &best, (const Override *) &plain}) {
                if (!try_ov(seed, *p, *cand, cls, g_scratch)) { fprintf(stderr, "note: with pinned parameters the run ends with status %d [%s] %.200s\n", g_scratch->status, g_scratch->cls, g_scratch->detail); continue; }
                write_replay(f, prop, scen, seed, *cand, g_scratch);
                if (fresh(exe, f, o)) { ok = true; best = *cand; break; }
                fprintf(stderr, "note: fresh replay differed: %s\n", o.c_str());
            }
            if (!ok) { fprintf(stderr, "error: seed %" PRIu64 " (%s) [%s] %s: not reproduced by a fresh process\n", seed, scen.c_str(), cls.c_str(), detail.c_str()); continue; }
            rc = 1;
            printf("scenario=%s seed=%" PRIu64 " class=%s\n  %s\n", scen.c_str(), seed, cls.c_str(), detail.c_str());
            printf("  minimised: %zu switches, %zu faults\n", best.sw.size(), best.fa.size());
            printf("VIOLATION property=%s replay=%s\n", prop.c_str(), f.c_str());
            vjson = "{\"scenario\":\"" + esc(scen) + "\",\"seed\":" + std::to_string(seed) + ",\"class\":\"" + esc(cls) + "\",\"detail\":\"" + esc(detail) + "\",\"replay\":\"" + esc(f) + "\"}";
        }
    }
    std::ofstream j(out);
    j << "{\"property\":\"" << prop << "\",\"seed\":" << base << ",\"wall_s\":" << wall << ",\"runs\":" << A->runs << ",\"runs_with_preemption\":" << A->nonzero_switch
      << ",\"distinct_interleavings\":" << A->il_distinct << ",\"distinct_outcomes\":" << A->st_distinct << ",\"violation\":" << vjson << ",\n \"scenarios\":[";
    for (uint32_t i = 0; i < A->n_scen; ++i) { auto &s = A->scen[i]; j << (i ? "," : "") << "\n  {\"name\":\"" << s.name << "\",\"runs\":" << s.runs << ",\"known\":" << s.known << ",\"steps\":" << s.events << ",\"switches\":" << s.switches << ",\"preemptions\":" << s.preempts << ",\"threads\":" << s.fibers << ",\"sim_ns\":" << s.sim_ns << "}"; }
    j << "],\n \"faults\":{"; for (uint32_t i = 0; i < A->n_faults; ++i) j << (i ? "," : "") << "\"" << A->faults[i].name << "\":" << A->faults[i].n;
    j << "},\n \"probes\":{"; for (uint32_t i = 0; i < A->n_probes; ++i) j << (i ? "," : "") << "\"" << A->probes[i].name << "\":" << A->probes[i].n;
    j << "},\n \"known\":["; bool first = true;
    for (size_t i = 0; i < g_known.size(); ++i) { j << (first ? "" : ",") << "{\"id\":\"" << esc(g_known[i].id) << "\",\"hits\":" << A->known_hits[i] << ",\"first_seed\":" << A->known_seed[i] << "}"; first = false; }
    j << "]}\n";
    return rc;
}
