// Load-balancing partitioners for the simulated runs.
#pragma once
#include "geo.h"
#include "simkahip.h"
#include "kaHIP_interface.h"
#include <boost/program_options.hpp>
#include <iostream>
#include <iomanip>
#include "load_balancing/CommandLineInterface.h"
#include "LoadBalancedDCTriangulator.h"
#include "load_balancing/Experiment.h"
#include "load_balancing/monitors/ComprehensiveMonitor.h"

enum LbKind { KWAY, OLD, BINBOX, CENTER, HYPER, BOUNDSD, NEAREST, NEARBI, N_KINDS };
inline const char *lb_name(int k) { static const char *n[] = {"k-way", "old", "binary-box", "center-distance", "hyperplane", "bounds-distance", "nearest-sample", "nearest-sample-bi"}; return n[k]; }
typedef LoadBalancing::ComprehensiveMonitor Mon;
template<uint D> using LbPart = LoadBalancing::Partitioner<D, double, Mon>;

// how one run partitions; everything is a knob
template<uint D> struct LbSetup {
    int kind = 0, checker = 0, weights = 0; uint p = 2; size_t n = 0, sample = 0, cutoff = 0; double cell = 1; bool flat = false; char old = 'c'; uint64_t seed = 1;
    bool sampled() const { return kind >= BINBOX; }
    std::string show() const { return sim::str("%s p=%u sample=%zu checker=%d cell=%g cutoff=%zu%s", lb_name(kind), p, sample, checker, cell, cutoff, flat ? " flat" : ""); }
};
template<uint D> LbSetup<D> lb_setup(const dBox<D, double> &box, size_t n, int kinds = N_KINDS) {
    LbSetup<D> s; s.n = n; s.kind = (int) sim::knob("partitioner", 0, kinds - 1); s.p = 1u << sim::knob("log-parts", 1, 3); s.checker = (int) sim::knob("checker", 0, 2);
    s.sample = std::min<size_t>(n, (size_t) sim::knob("sample", 12, 60)); s.cutoff = (size_t) sim::knob_pick("cutoff", {20, 40, 80}); s.flat = sim::knob_bool("flatten", 0.3); s.weights = (int) sim::knob("weights", 0, 4); s.seed = (uint64_t) sim::knob("sampler-seed", 1, 1000);
    double ext = 0; for (uint d = 0; d < D; ++d) ext = std::max(ext, (double) box.high[d] - (double) box.low[d]); s.cell = ext / (double) sim::knob("cells", 2, D == 2 ? 24 : 10);
    if (s.kind == CENTER || s.kind == BOUNDSD || s.kind == NEAREST) s.p = (uint) sim::knob("parts", 2, 7);
    static const char olds[] = {'c', 'e', 'd', '0', '1', '2'}; s.old = olds[sim::knob("old-partitioner", 0, D == 2 ? 4 : 5)];
    return s;
}
inline double lb_weight(int w, double d) { switch (w) { case 1: return 1 / (d + 0.0000001); case 2: return 1 / std::sqrt(d + 0.0000001); case 3: return 1.0 - d; default: return -std::log(d + 0.0000001); } }
template<uint D> LoadBalancing::Sampler<D, double> lb_sampler(const LbSetup<D> &s) {
    size_t k = s.sample; std::function<size_t(size_t)> f = [k](size_t) { return k; }; int w = s.weights;
    if (!w) return LoadBalancing::Sampler<D, double>(s.seed, f, FAST, 0.05);
    return LoadBalancing::Sampler<D, double>(s.seed, f, ECO, 0.05, [w](double d) { return lb_weight(w, d); });
}
template<uint D> std::unique_ptr<LbPart<D>> lb_make(const LbSetup<D> &s) {
    namespace lb = LoadBalancing; typedef double P; std::unique_ptr<LbPart<D>> r;
    lb::IntersectionPartitionMakerFunction<D, P> pm; if (s.checker == 0) pm = lb::BoundsIntersectionPartitionMaker<D, P>(); else if (s.checker == 1) pm = lb::GridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(s.cell)); else pm = lb::AccurateGridIntersectionPartitionMaker<D, P>(lb::Grid<D, P>(s.cell));
    switch (s.kind) {
        case KWAY: r = std::make_unique<lb::KWaySplitter<D, P, Mon>>(s.p); break;
        case OLD: { auto o = ::Partitioner<D, P>::make((unsigned char) s.old); auto depth = s.old == 'd' ? 1 : o->getRecursionDepth(s.p); r = std::make_unique<lb::OldPartitionerPartitioner<D, P, Mon>>(std::move(o), depth, s.cutoff); break; }
        case BINBOX: r = std::make_unique<lb::BinaryBoxEstimatingSamplePartitioner<D, P, Mon>>(s.cutoff, lb_sampler<D>(s)); break;
        case CENTER: r = std::make_unique<lb::CenterDistancePointAssigningSamplePartitioner<D, P, Mon>>(s.p, lb_sampler<D>(s), pm); break;
        case HYPER: r = std::make_unique<lb::HyperplaneSamplingBipartitioner<D, P, Mon>>(s.p, lb_sampler<D>(s)); break;
        case BOUNDSD: r = std::make_unique<lb::BoundsDistancePointAssigningSamplePartitioner<D, P, Mon>>(s.p, lb_sampler<D>(s), pm); break;
        case NEAREST: r = std::make_unique<lb::NearestSamplePointAssigningSamplePartitioner<D, P, Mon>>(s.p, lb_sampler<D>(s), pm); break;
        default: r = std::make_unique<lb::NearestSamplePointAssigningSampleBipartitioner<D, P, Mon>>(s.p, lb_sampler<D>(s), s.cutoff, pm); break; }
    if (s.flat) r = std::make_unique<lb::FlatPartitioner<D, P, Mon>>(std::move(r));
    return r;
}
