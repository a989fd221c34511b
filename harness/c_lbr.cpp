// E03 with the build option REPRODUCIBLE: only this translation unit sees the sampler, so it is compiled with the option.
#define REPRODUCIBLE
#include "lb.h"
#include "utils/MakeIds.h"
using sim::str; using sim::knob; using sim::knob_bool; using sim::NoPreempt;
namespace lb = LoadBalancing;
template<uint D> static void reproducible_run(size_t hi) {
    quiet_log(); sim::set_gap(50, 40000, 20, 2000); sim::set_limits(200000000, 400000000); size_t n = (size_t) knob("points", 12, (int64_t) hi); dPoints<D, double> pts; dBox<D, double> box = make_points<D, double>(pts, n);
    LbSetup<D> s; s.sample = (size_t) knob("sample", D + 2, (int64_t) n + 5); s.weights = (int) knob("weights", 0, 4); s.seed = (uint64_t) knob("sampler-seed", 1, 1000); size_t parts = (size_t) knob("parts", 1, 8);
    Point_Ids ids; { NoPreempt np; for (tIdType i = 1; i <= n; ++i) ids.insert(i); } auto one = lb_sampler<D>(s), two = lb_sampler<D>(s); std::string w = str("reproducible sampling %zu of %zu points (weights %d, %zu parts)", s.sample, n, s.weights, parts); const char *what = w.c_str();
    startGen.seed(START_SEED); auto a = one(box, pts, ids, parts); startGen.seed(START_SEED); auto b = two(box, pts, ids, parts); NoPreempt np;   // the programs seed this generator, hash tables draw from it
    for (auto *m : {&a, &b}) { auto &g = m->graph; size_t k = m->points.size(); if (g.nodeRecords.size() != k + 1 || g.nodeRecords[0] != 0 || (size_t) g.nodeRecords[k] != g.adjacency.size() || g.edgeWeights.size() != g.adjacency.size()) sim::violation("graph-offsets", str("%s: %zu points, %zu offsets, %zu edges, %zu weights", what, k, g.nodeRecords.size(), g.adjacency.size(), g.edgeWeights.size()));
        std::map<std::pair<int, int>, int> e; for (size_t i = 0; i < k; ++i) for (int j = g.nodeRecords[i]; j < g.nodeRecords[i + 1]; ++j) { int t = g.adjacency[(size_t) j]; if (t < 0 || t >= (int) k || t == (int) i || !e.emplace(std::make_pair((int) i, t), g.edgeWeights[(size_t) j]).second) sim::violation("graph-edge", str("%s: vertex %zu has an edge to %d, to itself or to nothing or twice", what, i, t)); }
        for (auto &p : e) { auto r = e.find({p.first.second, p.first.first}); if (r == e.end() || r->second != p.second) sim::violation("graph-asymmetric", str("%s: edge %d-%d weighs %d, the opposite one %d", what, p.first.first, p.first.second, p.second, r == e.end() ? -1 : r->second)); } }
    if (a.points != b.points) sim::violation("sample-not-reproducible", str("%s: the same seed draws another sample", what)); if (a.graph.nodeRecords != b.graph.nodeRecords || a.graph.adjacency != b.graph.adjacency || a.graph.edgeWeights != b.graph.edgeWeights) sim::violation("graph-not-reproducible", str("%s: the same seed yields another graph", what));
    if (a.partition != b.partition) sim::violation("partition-not-reproducible", str("%s: the same seed yields another partition", what)); sim::note_state(sim::mix(a.points.size(), a.graph.adjacency.size()));
}
SIM_SCENARIO(E03, reproducible2d, 1) { reproducible_run<2>(120); }
SIM_SCENARIO(E03, reproducible3d, 1) { reproducible_run<3>(100); }
