// E05: the experiment, point dump and benchmark programs from their command line to their output.
#include "geo.h"
#include "DCTriangulator.h"
#include "utils/Generator.h"
#include "utils/Random.h"
#include "utils/Timings.h"
#include "load_balancing/VectorOperations.h"
#include "load_balancing/UnboundBubbleGenerator.h"
#include "load_balancing/PatchBubbleGenerator.h"
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <iostream>
#include <sstream>

using sim::str; using sim::knob; using sim::knob_pick; using sim::knob_bool; using sim::NoPreempt;
namespace pt = boost::property_tree;
extern "C" int prog_lb_main(int, char **); extern "C" int prog_dump_main(int, char **); extern "C" int prog_bench_main(int, char **); std::string &prog_out();

struct Outcome { int rc = 0; bool threw = false; std::string what, out; };
struct Catch : std::streambuf { std::string t; int overflow(int c) override { NoPreempt np; if (c != EOF) t += (char) c; return 0; } std::streamsize xsputn(const char *p, std::streamsize n) override { NoPreempt np; t.append(p, (size_t) n); return n; } };
// one call of a program with its standard output caught
static Outcome call(int (*prog)(int, char **), const std::vector<std::string> &args) {
    Outcome o; std::vector<std::string> a; std::vector<char *> v; Catch os, es; std::streambuf *was, *wase;
    { NoPreempt np; a.push_back("prog"); for (auto &x : args) a.push_back(x); for (auto &x : a) v.push_back(&x[0]); v.push_back(nullptr); was = std::cout.rdbuf(&os); wase = std::cerr.rdbuf(&es); prog_out().clear(); }
    try { o.rc = prog((int) a.size(), v.data()); } catch (const std::exception &e) { NoPreempt np; o.threw = true; o.what = e.what(); }
    NoPreempt np; std::cout.rdbuf(was); std::cerr.rdbuf(wase); o.out = os.t + prog_out(); prog_out().clear(); return o;
}
static std::string join(const std::vector<std::string> &a) { std::string s; for (auto &x : a) s += (s.empty() ? "" : " ") + x; return s; }
static std::vector<std::string> lines(const std::string &t) { std::vector<std::string> v; std::stringstream s(t); for (std::string l; std::getline(s, l);) v.push_back(l); return v; }

// ------------------------------------------------------------------ the experiment program
struct LbArgs { std::vector<std::string> args; std::string name, dist; bool gen = false, file = false, validate = false; size_t n = 0; int level = 0; unsigned threads = 0, seed = START_SEED; };
static const struct { const char *cli, *info; } PARTS[] = {{"cycle", "old partitioner"}, {"dWay", "old partitioner"}, {"extend", "old partitioner"}, {"one-dim", "old partitioner"}, {"kway-cycle", "k-way cycle"}, {"binary-besp", "binary box-estimating sample partitioner"},
    {"center-distance-pasp", "center-distance-point-assigning sample partitioner"}, {"bounds-distance-pasp", "bounds-distance-point-assigning sample partitioner"}, {"nearest-sample-pasp", "nearest-sample-point-assigning sample partitioner"}, {"nearest-sample-pasb", "nearest-sample-point-assigning sample bipartitioner"}, {"hyperplane-sample-pasb", "hyperplane sampling bipartitioner"}};
template<uint D> static LbArgs lb_args(size_t hi) {
    LbArgs r; int part = (int) knob("partitioner", 0, 10); r.name = PARTS[part].info; r.n = (size_t) knob("points", 45, (int64_t) hi); r.threads = part == 1 ? 1u << (D * knob("log-threads", 1, D == 2 ? 2 : 1)) : 1u << knob("log-threads", 0, 3); r.file = knob_bool("points-file", 0.5); auto &a = r.args;
    auto opt = [&](const char *k, const std::string &v) { a.push_back(std::string("--") + k); a.push_back(v); };
    NoPreempt np; opt("dim", std::to_string(D)); opt("partitioner", PARTS[part].cli); opt("threads", std::to_string(r.threads)); r.level = (int) knob("verbosity", 0, 3); if (r.level < 3) opt("verbosity", std::to_string(r.level)); else r.level = (int) Logger::Verbosity::NORMAL;
    if (r.file) opt("points", SIMFS "in.txt"); else { static const char *ds[] = {"uniform", "normal", "ellipsoid", "skew-line", "bubble", "unbound-bubble", "patch-bubble"}; r.dist = ds[knob("distribution", 0, 6)]; opt("n", std::to_string(r.n)); opt("distribution", r.dist); }
    if (knob_bool("seed-given", 0.7)) { r.seed = (unsigned) knob("seed", 1, 100000); opt("seed", std::to_string(r.seed)); }
    switch ((int) knob("sampling", 0, 3)) { case 0: break; case 1: opt("sampling", "sqrt"); break; case 2: opt("sampling", "log"); break; default: opt("sample-size", std::to_string(knob("sample", 12, 40))); }
    static const char *ws[] = {nullptr, "uniform", "squared-inverted", "inverted", "linear", "log"}; if (int w = (int) knob("weights", 0, 5)) opt("edge-weights", ws[w]);
    static const char *bs[] = {nullptr, "grid", "accurate-grid", "box", "boxes"}; if (int b = (int) knob("bounds", 0, 4)) opt("bounds", bs[b]); opt("cell-width", str("%g", (double) knob("cells", 3, 40)));
    if (part == 3) opt("split-dimension", std::to_string(knob("split-dimension", 0, D - 1))); if (knob_bool("flatten", 0.3)) { a.push_back("--flatten"); r.name += " (flattened)"; } if (knob_bool("imbalance-given", 0.3)) opt("imbalance", "0.1");
    static const char *ks[] = {nullptr, "FAST", "ECO", "STRONG", "PAR"}; if (int k = (int) knob("kaffpa-mode", 0, 4)) opt("kaffpa-mode", ks[k]); r.validate = knob_bool("validate", 0.4); if (r.validate) opt("validate", "1");
    return r;
}
struct Parsed { pt::ptree t; std::string simplices; };
static Parsed parse(const Outcome &o, const LbArgs &r, const char *what) {
    NoPreempt np; if (o.threw) sim::violation("program-failed", str("%s ends with '%s'", what, o.what.c_str())); if (o.rc) sim::violation("program-failed", str("%s ends with code %d", what, o.rc)); Parsed p; std::stringstream s(o.out);
    try { pt::read_json(s, p.t); } catch (const std::exception &e) { sim::violation("report", str("%s: the report is not well formed (%s): %s", what, e.what(), o.out.substr(0, 300).c_str())); }
    auto get = [&](const char *k) { return p.t.get<std::string>(k, "(absent)"); }; auto want = [&](const char *k, const std::string &w) { if (get(k) != w) sim::violation("report", str("%s: the report says %s %s, it should say %s", what, k, get(k).c_str(), w.c_str())); };
    want("args", join(r.args)); want("threads", std::to_string(r.threads)); want("seed", std::to_string(r.seed)); want("distribution", r.file ? std::string(SIMFS "in.txt") : r.dist); std::string info = get("partitioner"), head = r.name.substr(0, r.name.find(" (flat"));
    if (info.compare(0, head.size(), head) || (info.find("flattened") != std::string::npos) != (head != r.name)) sim::violation("report", str("%s: the points were partitioned by '%s'", what, info.c_str()));
    size_t np_ = (size_t) std::atoll(get("numpoints").c_str()); if (np_ != r.n) sim::violation("report", str("%s: the report says %zu points, there are %zu", what, np_, r.n));
    auto res = p.t.get_child_optional("results"); if (!res || res->size() != 1) sim::violation("report", str("%s: %zu results are reported, one run was asked for", what, res ? res->size() : 0)); auto &x = res->front().second; p.simplices = x.get<std::string>("simplices", "");
    std::string v = x.get<std::string>("valid", ""); if (v != (r.validate ? "true" : "")) sim::violation("verification", str("%s: the report says valid '%s'", what, v.c_str())); return p;
}
template<uint D> static size_t expected_simplices(dPoints<D, double> &pts, const dBox<D, double> &box) { DCTriangulator<D, double> dc(box, pts, 1, Partitioner<D, double>::make('c'), 100, false, false); return reference<D, double>(pts).size(); }
// the points a program draws by itself, as a user of the generators would
template<uint D> static std::unique_ptr<PointGenerator<D, double>> generator(const std::string &dist) {
    static const std::map<std::string, unsigned char> k = {{"uniform", 'u'}, {"normal", 'n'}, {"ellipsoid", 'e'}, {"skew-line", 'l'}, {"bubble", 'b'}}; auto it = k.find(dist); if (it != k.end()) return GeneratorFactory<D, double>::make(it->second);
    if (dist == "unbound-bubble") return std::make_unique<LoadBalancing::UnboundBubbleGenerator<D, double>>((uint) std::pow(4, D), 10); return std::make_unique<LoadBalancing::PatchBubbleGenerator<D, double>>((uint) std::pow(4, D));
}
template<uint D> static size_t generated_simplices(const LbArgs &r) {
    dBox<D, double> b; b.low.fill(0); b.high.fill(100); tGenerator g(r.seed); auto pts = generator<D>(r.dist)->generate(r.n, b, g); return expected_simplices<D>(pts, b);
}
template<uint D> static void lb_run(size_t hi) {
    quiet_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(600000000, 1200000000); LbArgs r = lb_args<D>(hi); std::string line = "the experiment program with " + join(r.args); const char *what = line.c_str(); size_t want = 0;
    if (r.file) { dPoints<D, double> pts; make_points<D, double>(pts, r.n); NoPreempt np; std::string t; dBox<D, double> b; for (uint d = 0; d < D; ++d) b.low[d] = b.high[d] = pts[1].coords[d];
        for (tIdType i = 1; i <= r.n; ++i) for (uint d = 0; d < D; ++d) { double c = pts[i].coords[d]; b.low[d] = std::min(b.low[d], c); b.high[d] = std::max(b.high[d], c); t += str("%.17g%c", c, d + 1 < D ? ' ' : '\n'); } sim::SimFs::put(SIMFS "in.txt", t); want = expected_simplices<D>(pts, b); }
    else { want = generated_simplices<D>(r); }
    auto &c = sim::io(); c.short_read = r.file && knob_bool("short-reads", 0.5) ? 0.5 : 0; startGen.seed(START_SEED); auto o = call(prog_lb_main, r.args); auto p = parse(o, r, what); NoPreempt np;
    if ((int) LOGGER.getLogLevel() != r.level) sim::violation("verbosity", str("%s: the log level is %d", what, (int) LOGGER.getLogLevel()));
    if (want && p.simplices != std::to_string(want)) sim::violation("wrong-result", str("%s: %s simplices are reported, the triangulation of the points has %zu", what, p.simplices.c_str(), want));
    if (!r.file) { startGen.seed(START_SEED); auto o2 = call(prog_lb_main, r.args); auto q = parse(o2, r, what); if (q.simplices != p.simplices) sim::violation("not-reproducible", str("%s: %s simplices the first time, %s the second time", what, p.simplices.c_str(), q.simplices.c_str())); }
    sim::note_state(sim::mix(std::hash<std::string>()(r.name), want));
}
SIM_SCENARIO(E05, experiment2d, 2) { lb_run<2>(120); }
SIM_SCENARIO(E05, experiment3d, 1) { lb_run<3>(80); }

// options that cannot be followed are refused
SIM_SCENARIO(E05, refuse, 1) {
    quiet_log(); sim::set_gap(2000, 400000, 100, 20000); LbArgs r = lb_args<2>(60); int bad = (int) knob("mistake", 0, 9); std::string what; auto prog = prog_lb_main;
    { NoPreempt np; auto set = [&](const char *k, const char *v) { auto it = std::find(r.args.begin(), r.args.end(), std::string("--") + k); if (it == r.args.end()) { r.args.push_back(std::string("--") + k); r.args.push_back(v); } else *(it + 1) = v; };
      auto drop = [&](const char *k) { auto it = std::find(r.args.begin(), r.args.end(), std::string("--") + k); if (it != r.args.end()) r.args.erase(it, it + 2); }; drop("points"); set("n", "50"); set("distribution", "uniform"); sim::SimFs::remove(SIMFS "in.txt");
      switch (bad) { case 0: set("partitioner", "no-such"); break; case 1: set("distribution", "no-such"); break; case 2: set("partitioner", "center-distance-pasp"); set("bounds", "no-such"); break; case 3: set("partitioner", "nearest-sample-pasp"); set("bounds", "grid"); drop("cell-width"); break;
        case 4: set("sampling", "sqrt"); set("sample-size", "20"); break; case 5: drop("sample-size"); set("sampling", "no-such"); break; case 6: set("partitioner", "one-dim"); set("split-dimension", "7"); break; case 7: set("n", "many"); break; case 8: set("points", SIMFS "in.txt"); break; default: drop("partitioner"); } }
    startGen.seed(START_SEED); auto o = call(prog, r.args); NoPreempt np; if (o.out.find("simplices") != std::string::npos && (!o.threw || o.out.find("triangulationtime") != std::string::npos)) sim::violation("not-refused", str("the experiment program with %s reports a result", join(r.args).c_str()));
    if (!o.threw && !o.rc) sim::violation("not-refused", str("the experiment program with %s ends as if all were well", join(r.args).c_str())); sim::note_state((uint64_t) bad);
}

// ------------------------------------------------------------------ the point dump program
SIM_SCENARIO(E05, dump, 1) {
    quiet_log(); sim::set_gap(200, 40000, 50, 5000); static const char *ds[] = {"uniform", "normal", "ellipsoid", "skew-line", "bubble", "unbound-bubble", "patch-bubble", "malicious-bubble"}; size_t n = (size_t) knob("points", 1, 600); std::string dist = ds[knob("distribution", 0, 7)]; std::vector<std::string> a; bool seeded = knob_bool("seed-given", 0.7);
    { NoPreempt np; a = {"--n", std::to_string(n), "--distribution", dist}; if (seeded) { a.push_back("--seed"); a.push_back(std::to_string(knob("seed", 1, 100000))); } if (dist == "patch-bubble" || dist == "malicious-bubble" || dist == "unbound-bubble") if (knob_bool("bubbles-given", 0.5)) { a.push_back("--num-bubbles"); a.push_back(std::to_string(knob("bubbles", 2, 20))); } }
    std::string what = "the point dump program with " + join(a); startGen.seed(START_SEED); auto o = call(prog_dump_main, a); if (!seeded) startGen.seed(START_SEED); auto o2 = call(prog_dump_main, a);
    NoPreempt np; if (o.threw || o.rc) sim::violation("program-failed", str("%s ends with %s", what.c_str(), o.threw ? o.what.c_str() : "an error code")); auto l = lines(o.out); if (l.size() != n) sim::violation("dump-count", str("%s: %zu points are printed, %zu were asked for", what.c_str(), l.size(), n));
    for (auto &x : l) { double v[3]; if (sscanf(x.c_str(), "%lf %lf %lf", v, v + 1, v + 2) != 3) sim::violation("dump-line", str("%s: a line reads '%s'", what.c_str(), x.c_str())); for (double q : v) if (!(q >= -1e-6 && q <= 100 + 1e-6)) sim::violation("dump-line", str("%s: a coordinate is %g, outside of 0 to 100", what.c_str(), q)); }
    if (o2.out != o.out) sim::violation("not-reproducible", str("%s: prints other points the second time", what.c_str())); sim::note_state(sim::mix(n, std::hash<std::string>()(dist)));
}

// ------------------------------------------------------------------ the benchmark program
SIM_SCENARIO(E05, benchmark, 2) {
    quiet_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(600000000, 1200000000); std::vector<std::string> gen, want; int maxn = (int) knob("max-points", 10, 60), reps = (int) knob("reps", 1, 3); std::map<uint, size_t> count;
    static const char *as[] = {"c", "m", "d"}; std::string alg = as[knob("algorithm", 0, 2)]; int edge = (int) knob("edge-option", 0, 2); bool nopb = knob_bool("no-parallel-base", 0.5), rev = knob_bool("reverse", 0.3), one = knob_bool("single-run", 0.3), allocc = knob_bool("all-occupancies", 0.2); static const char dists[] = {0, 'u', 'n', 'e', 'b'}; char dist = dists[knob("distribution", 0, 4)]; int mint = 1 << knob("min-log-threads", 0, 1), maxt = mint << knob("more-log-threads", 0, 2);
    { NoPreempt np; gen = {"--maxN", std::to_string(maxn), "--minN", std::to_string(std::max(10, maxn - 15)), "--algorithm", alg, "--minThreads", std::to_string(mint), "--maxThreads", std::to_string(maxt)}; if (!allocc) { gen.push_back("--occupancy"); gen.push_back(std::to_string(knob("occupancy", 1, 20))); } if (dist) { gen.push_back("--dist"); gen.push_back(std::string(1, dist)); } if (nopb) gen.push_back("--no-parallel-base"); if (edge) gen.push_back(edge == 1 ? "--no-parallel-edge" : "--parallel-edge-study"); gen.push_back("--gen-only"); }
    auto list = call(prog_bench_main, gen); std::string what = "the benchmark program with " + join(gen);
    { NoPreempt np; if (list.threw || list.rc) sim::violation("program-failed", str("%s fails (%s)", what.c_str(), list.what.c_str())); want = lines(list.out); if (dist) for (auto &l : want) if (ExperimentRun(l).getTrait("dist") != std::string(1, dist)) sim::violation("run-list", str("%s lists the run '%s'", what.c_str(), l.c_str())); std::set<std::string> u(want.begin(), want.end()); if (u.size() != want.size()) sim::violation("repeated-run", str("%s lists a run twice", what.c_str()));
      size_t sizes = 0, thr = 0; for (int n = std::max(10, maxn - 15); n <= maxn; n += (int) std::pow(10, std::floor(std::log10(n)))) ++sizes; for (int t = mint; t <= maxt; t <<= 1) ++thr; size_t occs = allocc ? 4 : 1, per = alg == "c" ? 1 : alg == "m" ? thr * occs : thr * (edge == 2 ? 2 : 1) * (nopb ? 1 : 1 + occs);
      if (want.size() != sizes * per) sim::violation("run-list", str("%s lists %zu runs, the study has %zu", what.c_str(), want.size(), sizes * per)); want.erase(std::remove_if(want.begin(), want.end(), [](const std::string &l) { ExperimentRun r(l); return r.hasTrait("occupancy") && r.getTrait<int>("occupancy") > 20; }), want.end());   // their lock grids have millions of cells
      while (want.size() > 8) want.erase(want.begin() + (long) sim::wl.below(want.size())); if (one && !want.empty()) want.resize(1); }
    if (want.empty()) return; std::vector<std::string> run; { NoPreempt np; std::string t; for (auto &l : want) t += l + "\n"; sim::SimFs::put(SIMFS "runs.txt", t); if (one) run = {"--run-string", want[0]}; else run = {"--runs", SIMFS "runs.txt"}; run.push_back("--reps"); run.push_back(std::to_string(reps)); if (rev) run.push_back("--reverse"); sim::SimFs::remove("failedExperiments"); }
    bool faults = knob_bool("failing-allocations", 0.35); what = "the benchmark program with " + join(run); uint64_t before = sim::faults_fired("alloc-fail"); if (faults) { sim::fault_cap("alloc-fail", 1 + (int) knob("faults", 0, 2)); sim::alloc_faults(1.0 / (double) knob_pick("fault-gap", {3000, 30000, 300000})); }
    auto &c = sim::io(); bool missing = !one && knob_bool("missing-runs-file", 0.1); c.short_read = !one && knob_bool("short-reads", 0.4) ? 0.5 : 0; c.eio_read = !one && knob_bool("failing-reads", 0.25) ? 0.5 : 0; if (missing) { NoPreempt np; sim::SimFs::remove(SIMFS "runs.txt"); } uint64_t rbefore = sim::faults_fired("read-eio");
    auto o = call(prog_bench_main, run); sim::alloc_faults(0); c.short_read = c.eio_read = 0; uint64_t unread = sim::faults_fired("read-eio") - rbefore, fired = sim::faults_fired("alloc-fail") - before; std::string failed = sim::SimFs::exists("failedExperiments") ? sim::SimFs::get("failedExperiments") : "";
    { NoPreempt np; if (missing || unread) { if (!o.threw && !o.rc) sim::violation("unread-runs", str("%s reports success though the file of runs %s", what.c_str(), missing ? "does not exist" : "could not be read")); sim::probe("unreadable-runs-refused"); return; } if ((o.threw || o.rc) && fired) { if (lines(failed).size() >= fired) sim::violation("failed-runs", str("%s ends (%s) after %zu runs were noted as failed, the remaining runs are not executed", what.c_str(), o.what.c_str(), lines(failed).size())); sim::probe("allocation-failure-ends-program"); return; } if (o.threw || o.rc) sim::violation("program-failed", str("%s fails (%s)", what.c_str(), o.what.c_str())); std::vector<std::string> res; for (auto &l : lines(o.out)) if (l.compare(0, 7, "RESULT ") == 0) res.push_back(l.substr(7) + " ");
      if (res.size() != want.size()) sim::violation("results", str("%s: %zu results of %zu runs", what.c_str(), res.size(), want.size())); if (rev) std::reverse(res.begin(), res.end()); auto bad = lines(failed); if (bad.size() > fired) sim::violation("failed-runs", str("%s: %zu runs are noted as failed, %llu allocations failed", what.c_str(), bad.size(), (unsigned long long) fired)); if (!bad.empty()) sim::probe("failed-run-noted"); size_t short_ = 0;
      for (size_t i = 0; i < res.size(); ++i) { ExperimentRun in(want[i]); if (fired && res[i].find(" threads=") == std::string::npos) { sim::probe("result-line-cut-by-allocation-failure"); continue; }   // string streams swallow failing allocations
        for (auto &t : in.traits()) { std::string v = " " + t.first + "=" + t.second + " "; if ((" " + res[i]).find(v) == std::string::npos) sim::violation("results", str("%s: result %zu is '%s', the run was '%s'", what.c_str(), i, res[i].c_str(), want[i].c_str())); }
        uint n = in.getTrait<uint>("nP"); auto pos = (" " + res[i]).find(" nS="); bool all = res[i].find(" times=") != std::string::npos && res[i].find(" peakMem=") != std::string::npos;  if (!all) { ++short_; if (bad.empty()) sim::violation("measurements", str("%s: result %zu has no measurements: '%s'", what.c_str(), i, res[i].c_str())); }
        if (pos == std::string::npos) { if (all) ++short_; if (all && bad.empty()) sim::violation("results", str("%s: result %zu does not say how many simplices there are", what.c_str(), i)); continue; } size_t ns = (size_t) std::atoll(res[i].c_str() + pos + 3); if (alg != "d") continue;   // the comparison algorithms throw their triangulation away
        if (!count.count(n)) { tGenerator g(START_SEED); dPoints<3, double> pts; dBox<3, double> b; for (uint d = 0; d < 3; ++d) { b.low[d] = 0; b.high[d] = 100; } pts = GeneratorFactory<3, double>::make(dist ? (unsigned char) dist : 'u')->generate(n, b, g); count[n] = expected_simplices<3>(pts, b); }
        if (ns != count[n]) sim::violation("wrong-result", str("%s: result %zu reports %zu simplices of %u points, there are %zu", what.c_str(), i, ns, n, count[n])); }
      if (short_ > bad.size()) sim::violation("failed-runs", str("%s: %zu runs are incomplete, %zu are noted as failed", what.c_str(), short_, bad.size())); }
    sim::note_state(sim::mix(want.size(), (uint64_t) maxn));
}
