// C08 Logger, C09 ExperimentRun, C10 ProgressDisplay, C12 task timing, C13 host information.
#include "common.h"
#include "utils/Logger.h"
#include "utils/Timings.h"
#include "utils/TaskTimer.h"
#include "utils/ProgressDisplay.h"
#include "utils/System.h"
#include "utils/CSV.h"
#include "utils/version.h"
#include <tbb/parallel_for.h>
#include <ctime>
#include <cmath>

using sim::str; using sim::knob; using sim::knob_pick; using sim::knob_bool; using sim::NoPreempt;

// ------------------------------------------------------------------ C08
struct Entry { int thread; int seq; int level; uint indent; std::string text; uint64_t inv, ret; bool visible; };
static void logger_run(bool tasks) {
    auto lv = (Logger::Verbosity) knob("level", 0, 3); size_t threads = (size_t) knob("threads", 1, 4), ops = (size_t) knob("ops", 1, 8); bool first_use = knob_bool("first-use-in-threads", 0.4);
    std::vector<Entry> E; uint64_t clock = 0; if (!first_use) LOGGER.setLogLevel(lv);
    else if (lv == Logger::Verbosity::SILENT) lv = Logger::Verbosity::NORMAL;
    if (first_use) lv = Logger::Verbosity::NORMAL;
    auto one = [&](size_t t, size_t i, uint &ind) {
        int what; { NoPreempt np; what = (int) sim::wl.below(10); }
        if (what == 0) { INDENT if (lv >= Logger::Verbosity::NORMAL) ++ind; }
        else if (what == 1 && ind > 0) { DEDENT if (lv >= Logger::Verbosity::NORMAL) --ind; }
        else if (what == 2) { ind = (uint) wlbelow(4); LOGGER.setIndent(ind); }
        SIM_CHECK(LOGGER.getIndent() == ind, "logger-indent", str("thread's indentation is %u, expected %u", LOGGER.getIndent(), ind));
        int lev = 1 + (int) wlbelow(3); size_t e; uint64_t a = wlbelow(1000000);
        { NoPreempt np; E.push_back(Entry{(int) t, (int) i, lev, ind, "", ++clock, 0, (int) lv >= lev}); e = E.size() - 1; }
        std::string id = "e" + std::to_string(t) + "-" + std::to_string(i);
        if (what == 9) { std::vector<int> v{1, 2, (int) a}; LOGGER.logContainer(v, (Logger::Verbosity) lev, id, ","); NoPreempt np; E[e].text = id + ",1,2," + std::to_string((int) a) + "\n"; }
        else { if (lev == 1) { LOG(id << " value " << a << " of " << 3.5 << '\n'); } else if (lev == 2) { VLOG(id << " value " << a << " of " << 3.5 << '\n'); } else { PLOG(id << " value " << a << " of " << 3.5 << '\n'); }
            NoPreempt np; E[e].text = id + " value " + std::to_string(a) + " of 3.5\n"; }
        NoPreempt np; E[e].ret = ++clock;
    };
    if (tasks) { tbb::parallel_for(tbb::blocked_range<size_t>(0, threads * ops), [&](const auto &r) { for (auto i = r.begin(); i != r.end(); ++i) { uint save = LOGGER.getIndent(), ind = (uint) (i % 3); LOGGER.setIndent(ind); one(0, i, ind); LOGGER.setIndent(save); } }); }
    else { std::vector<std::function<void()>> fs; for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { uint ind = 0; SIM_CHECK(LOGGER.getIndent() == 0, "logger-indent", "a fresh thread starts indented"); for (size_t i = 0; i < ops; ++i) one(t, i, ind); }); sim::parallel(fs); }
    // the printed log
    auto pl = (Logger::Verbosity) knob("print-level", 0, 3); bool dflt = knob_bool("default-level", 0.4); std::ostringstream os; if (dflt) { if (wlcoin(0.5)) os << LOGGER; else LOGGER.printLog(os); pl = lv; } else LOGGER.printLog(os, pl);
    NoPreempt np; std::string out = os.str(); std::vector<std::string> lines; { std::istringstream is(out); std::string l; while (std::getline(is, l)) lines.push_back(l + "\n"); }
    std::map<std::string, std::vector<size_t>> want; size_t n = 0; for (size_t i = 0; i < E.size(); ++i) if (E[i].visible && (int) pl >= E[i].level) { want[std::string(E[i].indent, '\t') + E[i].text].push_back(i); ++n; }
    std::vector<size_t> order; for (auto &l : lines) { auto w = want.find(l); if (w == want.end() || w->second.empty()) sim::violation("logger-entry", str("the log contains the line '%s', which nobody wrote like this (or only once)", l.substr(0, l.size() - 1).c_str())); order.push_back(w->second.back()); w->second.pop_back(); }
    if (order.size() != n) sim::violation("logger-lost", str("%zu of %zu entries were printed", order.size(), n));
    for (size_t i = 0; i < order.size(); ++i) for (size_t j = i + 1; j < order.size(); ++j) if (E[order[j]].ret < E[order[i]].inv) sim::violation("logger-order", "an entry is printed before one that was complete when it began");
    sim::note_state(sim::mix(n, E.size()));
}
SIM_SCENARIO(C08, threads, 4) { logger_run(false); }
SIM_SCENARIO(C08, tasks, 2) { logger_run(true); }

// ------------------------------------------------------------------ C09
SIM_SCENARIO(C09, record, 4) {
    ExperimentRun run; bool acc = knob_bool("through-accessor", 0.4); size_t threads = (size_t) knob("threads", 2, 4), ops = (size_t) knob("ops", 1, 10), names = (size_t) knob("names", 1, 4);
    std::map<std::string, std::multiset<ulong>> M; std::map<std::string, ulong> C; if (acc) PROFILER.setRun(&run); bool detached = acc && knob_bool("detached-first", 0.2); if (detached) { PROFILER.setRun(nullptr); PROFILER.incCounter("c0", 5); PROFILER.addMeasurement("m0", 5); PROFILER.setRun(&run); }
    struct Do { bool cnt; std::string name; ulong v; bool dflt; }; std::vector<std::vector<Do>> plan(threads);
    { NoPreempt np; for (auto &p : plan) for (size_t i = 0; i < ops; ++i) { Do d; d.cnt = sim::wl.coin(0.5); d.name = (d.cnt ? "c" : "m") + std::to_string(sim::wl.below(names)); d.dflt = d.cnt && sim::wl.coin(0.5); d.v = d.dflt ? 1 : sim::wl.below(1000); p.push_back(d); if (d.cnt) C[d.name] += d.v; else M[d.name].insert(d.v); } }
    std::vector<std::function<void()>> fs; for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (auto &d : plan[t]) {
        if (acc) { if (d.cnt) { if (d.dflt) PROFILER.incCounter(d.name); else PROFILER.incCounter(d.name, d.v); } else PROFILER.addMeasurement(d.name, d.v); }
        else if (d.cnt) { if (d.dflt) run.incCounter(d.name); else run.incCounter(d.name, d.v); } else run.addMeasurement(d.name, d.v); } });
    sim::parallel(fs); if (acc) PROFILER.setRun(nullptr);
    auto judge = [&](const ExperimentRun &r, const char *what) {
        size_t n = 0; for (auto &kv : r.counters()) { ++n; ulong v = kv.second; auto w = C.find(kv.first); SIM_CHECK(w != C.end() && w->second == v, "run-counter", str("%s: counter %s is %lu, increments sum up to %lu", what, kv.first.c_str(), v, w == C.end() ? 0ul : w->second)); }
        SIM_CHECK(n == C.size(), "run-counter", str("%s: %zu counters, %zu were incremented", what, n, C.size()));
        n = 0; for (auto &kv : r.measurements()) { ++n; std::multiset<ulong> g(kv.second.begin(), kv.second.end()); auto w = M.find(kv.first); SIM_CHECK(w != M.end() && w->second == g, "run-measurement", str("%s: measurement %s has %zu values instead of the %zu recorded ones", what, kv.first.c_str(), g.size(), w == M.end() ? 0 : w->second.size())); }
        SIM_CHECK(n == M.size(), "run-measurement", str("%s: %zu measurements, %zu were recorded", what, n, M.size()));
        for (auto &p : M) { ulong s = 0; for (ulong x : p.second) s += x; ulong a = r.avgMeasurement(p.first); SIM_CHECK(a == s / p.second.size(), "run-average", str("%s: average of %s is %lu", what, p.first.c_str(), a)); SIM_CHECK(r.measurements(p.first).size() == p.second.size(), "run-measurement", "by name"); }
        for (auto &p : C) { ulong v = r.counter(p.first); SIM_CHECK(v == p.second, "run-counter", "by name"); } };
    judge(run, "after all threads"); ExperimentRun copy(run); judge(copy, "copy"); SIM_CHECK(copy == run, "run-copy", "the copy compares unequal"); sim::note_state(sim::mix(C.size(), M.size()));
}
// the record written to a log line is read back as the same run
SIM_SCENARIO(C09, roundtrip, 1) {
    ExperimentRun r; size_t n = (size_t) knob("traits", 0, 8); auto word = [] { NoPreempt np; static const char a[] = "abcxyz0189-_./"; std::string s; for (size_t i = 0, l = 1 + sim::wl.below(8); i < l; ++i) s += a[sim::wl.below(sizeof a - 1)]; return s; };
    bool custom = knob_bool("custom-separators", 0.3); std::string ts = custom ? ";" : "   ", is = custom ? "=" : ": "; std::map<std::string, std::string> T; for (size_t i = 0; i < n; ++i) { std::string k = word(), v = word(); if (wlcoin(0.3) && !custom) v += " " + word(); r.updateTrait(k, v); NoPreempt np; T[k] = v; } int64_t num = wlrange(-1000, 1000); r.addTrait("num", num); r.addTrait("run-number", 17); r.addTrait("end-time", word());
    std::string s = custom ? r.str(ts, is) : r.str(); ExperimentRun q = custom ? ExperimentRun(s, ts, is) : ExperimentRun(s);
    for (auto &p : T) SIM_CHECK(q.hasTrait(p.first) && q.getTrait(p.first) == p.second, "run-roundtrip", str("trait '%s' reads back differently from '%s'", p.first.c_str(), s.c_str())); SIM_CHECK(q.getTrait<int64_t>("num") == num, "run-roundtrip", "typed trait"); SIM_CHECK(!q.hasTrait("run-number") && !q.hasTrait("end-time"), "run-roundtrip", "ignored fields were read");
    r.updateTrait("num", num); ExperimentRun a(s, ts, is), b(s, ts, is); SIM_CHECK(a == b, "run-roundtrip", "two readings of one line differ"); b.updateTrait("num", num + 1); SIM_CHECK(!(a == b), "run-roundtrip", "runs with different traits compare equal"); b.updateTrait("num", num); b.updateTrait("host", "elsewhere"); SIM_CHECK(a == b, "run-roundtrip", "an ignored trait makes runs unequal"); sim::note_state(T.size());
}
// ------------------------------------------------------------------ C10
SIM_SCENARIO(C10, display, 4) {
    size_t threads = (size_t) knob("threads", 1, 4); unsigned long total = (unsigned long) knob_pick("expected", {1, 2, 7, 40, 50, 51, 100, 333}); std::string s1 = knob_bool("prefixes", 0.3) ? "A " : "\n", s2 = s1 == "\n" ? "" : "B ", s3 = s1 == "\n" ? "" : "C ";
    std::ostringstream os; ProgressDisplay *pd = s1 == "\n" ? new ProgressDisplay(total, os) : new ProgressDisplay(total, os, s1, s2, s3); int rounds = (int) knob("rounds", 1, 2);
    std::string head = s1 + "0%   10   20   30   40   50   60   70   80   90   100%\n" + s2 + "|----|----|----|----|----|----|----|----|----|----|\n" + s3;
    for (int round = 0; round < rounds; ++round) {
        if (round) { os.str(""); total = (unsigned long) knob_pick("expected2", {1, 5, 60}); pd->restart(total); }
        SIM_CHECK(os.str() == head && pd->count() == 0 && pd->expected_count() == total, "progress-scale", "initial display or counters");
        std::vector<std::vector<unsigned long>> plan(threads); { NoPreempt np; unsigned long left = total; bool all = sim::wl.coin(0.8); if (!all) left = total / 2; unsigned long maxinc = sim::wl.coin(0.5) ? 1 : total / 4 + 1; while (left) { unsigned long k = std::min<unsigned long>(left, 1 + sim::wl.below(maxinc)); plan[sim::wl.below(threads)].push_back(k); left -= k; } }
        std::vector<std::pair<unsigned long, unsigned long>> rets; unsigned long sum = 0; for (auto &p : plan) for (auto k : p) sum += k; std::vector<std::function<void()>> fs;
        for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { unsigned long mine = 0, last = 0; for (auto k : plan[t]) { unsigned long r = k == 1 && wlcoin(0.5) ? ++*pd : (*pd += k); mine += k; { NoPreempt np; rets.push_back({r, k}); } SIM_CHECK(r >= mine && r >= last + k && r <= sum, "progress-count", str("an increment by %lu returned %lu after %lu", k, r, last)); last = r; } });
        sim::parallel(fs); SIM_CHECK(pd->count() == sum, "progress-count", str("count() is %lu after increments by %lu", pd->count(), sum));
        // every increment returns the count it produced: sorted, they are the partial sums of some order
        { NoPreempt np; std::sort(rets.begin(), rets.end()); unsigned long acc = 0; for (auto &r : rets) { acc += r.second; if (r.first != acc) sim::violation("progress-return", str("increment by %lu returned %lu, which no order of the increments explains (expected %lu)", r.second, r.first, acc)); } }
        std::string out = os.str(); SIM_CHECK(out.compare(0, head.size(), head) == 0, "progress-output", "the scale was overwritten"); std::string tail = out.substr(head.size()); size_t stars = 0; while (stars < tail.size() && tail[stars] == '*') ++stars; std::string rest = tail.substr(stars);
        if (sum == total) SIM_CHECK(stars == 51 && rest == "\n", "progress-output", str("%zu tics and '%s' displayed at completion", stars, rest.c_str()));
        else { double f = 50.0 * (double) sum / (double) total; SIM_CHECK(rest.empty() && (double) stars >= std::floor(f) && (double) stars <= 50.0 * (double) (sum + 1) / (double) total + 1.001 && (stars > 0) == (sum > 0), "progress-output", str("%zu tics displayed at %lu of %lu", stars, sum, total)); }
        sim::note_state(stars * 1000 + total);
    }
    delete pd;
}
// ------------------------------------------------------------------ C12
SIM_SCENARIO(C12, tasktimer, 4) {
    size_t threads = (size_t) knob("threads", 1, 3), ops = (size_t) knob("ops", 1, 4); LOGGER.setLogLevel(Logger::Verbosity::NORMAL); struct Iv { int rank; std::string name; uint64_t lo0, lo1, hi0, hi1; }; std::vector<Iv> iv; bool jumps = knob_bool("clock-jumps", 0.5);
    std::vector<std::function<void()>> fs; for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (size_t i = 0; i < ops; ++i) {
        std::string name = "task" + std::to_string(i); Iv v; v.rank = (int) t; v.name = name; int style = (int) wlbelow(4); uint64_t d = wlbelow(5000000), d2 = wlbelow(5000000); v.lo0 = sim::now_ns();
        auto jump = [&] { if (jumps && wlcoin(0.4)) { NoPreempt np; sim::jump_wall_clock(sim::wl.range(-3600, 3600) * 1000000000ll); } };
        { if (style == 0) { TaskTimer tm(name, (int) t); v.lo1 = sim::now_ns(); sim::sleep_ns(d); jump(); v.hi0 = sim::now_ns(); }
          else if (style == 1) { TaskTimer tm(name, (int) t, false); sim::sleep_ns(d2); v.lo0 = sim::now_ns(); tm.start(); v.lo1 = sim::now_ns(); jump(); sim::sleep_ns(d); v.hi0 = sim::now_ns(); tm.end(); v.hi1 = sim::now_ns(); sim::sleep_ns(d2); }
          else if (style == 2) { TaskTimer tm(name, (int) t); v.lo1 = sim::now_ns(); sim::sleep_ns(d); jump(); v.hi0 = sim::now_ns(); tm.end(); v.hi1 = sim::now_ns(); tm.end(); }
          else { TaskTimer tm(name, (int) t, false); sim::sleep_ns(d); tm.end(); } }
        if (style == 3) continue; if (style == 0) v.hi1 = sim::now_ns(); NoPreempt np; iv.push_back(v); } });
    sim::parallel(fs); std::ostringstream os; LOGGER.printLog(os); NoPreempt np; std::istringstream is(os.str()); std::string line; std::map<std::pair<int, std::string>, const Iv *> by; for (auto &v : iv) by[{v.rank, v.name}] = &v; size_t n = 0;
    while (std::getline(is, line)) { std::istringstream ls(line); std::string tag, name; int rank; long long s, e, d; if (!(ls >> tag >> rank >> name >> s >> e >> d) || tag != "TIMING") sim::violation("timer-line", "garbled line: " + line); auto f = by.find({rank, name}); if (f == by.end()) sim::violation("timer-line", "unexpected or repeated record: " + line); ++n; const Iv &v = *f->second; by.erase(f);
        if (d != e - s) sim::violation("timer-duration", "duration is not the difference of the stamps: " + line);
        if (d < (long long) (v.hi0 - v.lo1) || d > (long long) (v.hi1 - v.lo0)) sim::violation("timer-duration", str("recorded %lld ns, the task took between %llu and %llu ns", d, (unsigned long long) (v.hi0 - v.lo1), (unsigned long long) (v.hi1 - v.lo0))); }
    if (n != iv.size()) sim::violation("timer-lost", str("%zu of %zu tasks were recorded", n, iv.size())); sim::note_state(n);
}
// ------------------------------------------------------------------ C13
// dirty the stack below: whatever a previous call left behind must not show up
static __attribute__((noinline)) void dirty_stack() { volatile char junk[6000]; for (size_t i = 0; i + 1 < sizeof junk; ++i) junk[i] = 'J'; junk[sizeof junk - 1] = 0; asm volatile("" ::: "memory"); }
SIM_SCENARIO(C13, host, 4) {
    auto &h = sim::host(); h.hostname_mode = (int) knob("hostname-fault", 0, 2); size_t len = (size_t) knob_pick("name-length", {1, 7, 63, 126, 127, 128, 129, 200}); { NoPreempt np; h.hostname.clear(); for (size_t i = 0; i < len; ++i) h.hostname += (char) ('a' + sim::wl.below(26)); }
    h.statm_mode = (int) knob("statm-fault", 0, 3); size_t threads = (size_t) knob("threads", 1, 3); std::string hn = h.hostname; int64_t files0 = sim::open_files();
    std::vector<std::function<void()>> fs; for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (int rep = 0; rep < 2; ++rep) {
        dirty_stack();
        std::string n = getHostname();
        if (h.hostname_mode == 1) SIM_CHECK(n.find('J') == std::string::npos && n.size() < 128 && (n.empty() || std::all_of(n.begin(), n.end(), [](unsigned char c) { return c >= 32 && c < 127; })), "host-garbage", "the host name is unavailable, but garbage is reported");
        else SIM_CHECK(n.size() <= hn.size() && hn.compare(0, n.size(), n) == 0 && (hn.size() > 64 || n == hn), "host-name", str("host name of %zu characters reported as one of %zu", hn.size(), n.size()));
        size_t rss = getCurrentRSS(); SIM_CHECK(rss == (h.statm_mode ? 0u : 1234u * 4096u), "host-rss", str("current RSS reported as %zu", rss));
        size_t peak = getPeakRSS(); SIM_CHECK(peak > 0 && peak % 1024 == 0, "host-rss", "peak RSS");
        time_t t0 = time(nullptr); std::string d = getDatetime(); time_t t1 = time(nullptr); struct tm tm; memset(&tm, 0, sizeof tm); const char *e = strptime(d.c_str(), "%Y-%m-%d %H:%M:%S", &tm); SIM_CHECK(e && !*e && d.size() == 19, "host-time", "malformed date: " + d); tm.tm_isdst = -1; time_t tt = mktime(&tm); SIM_CHECK(tt >= t0 && tt <= t1, "host-time", str("date %s is not the current time", d.c_str()));
        std::string st = print_stacktrace("file.cpp", 4711, (uint) (1 + wlbelow(8))); SIM_CHECK(st.compare(0, 32, "stack trace from (file.cpp:4711):", 32) == 0, "host-stacktrace", st.substr(0, 80));
        ExperimentRun r; SIM_CHECK(r.hasTrait("host") && r.hasTrait("git-rev") && r.getTrait("host").find('J') == std::string::npos, "host-run", "host trait"); } });
    sim::parallel(fs); SIM_CHECK(sim::open_files() == files0, "host-file-leak", str("%lld files left open", (long long) (sim::open_files() - files0))); sim::note_state(sim::mix((uint64_t) h.hostname_mode * 10 + (uint64_t) h.statm_mode, len));
}
