// E01 load-balanced divide and conquer, E02 partition trees and their border tests, E03 sample graphs, E04 monitors and experiment reports.
#include "lb.h"
#include "utils/MakeIds.h"
using sim::str; using sim::knob; using sim::knob_pick; using sim::knob_bool; using sim::NoPreempt;
namespace lb = LoadBalancing;

// ------------------------------------------------------------------ E01
template<uint D> static void lbdc_run(size_t lo, size_t hi) {
    some_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(300000000, 600000000); size_t n = (size_t) knob("points", (int64_t) lo, (int64_t) hi); dPoints<D, double> pts; dBox<D, double> box = make_points<D, double>(pts, n);
    auto s = lb_setup<D>(box, n); bool pe = knob_bool("parallel-edge", 0.6), pb = knob_bool("parallel-base", 0.2); uint occ = (uint) knob_pick("grid-occupancy", {1, 2, 10, 100});
    lb::ComprehensiveAccumulator acc; lb::DCTriangulator<D, double, Mon> dc(box, pts, 1u << knob("log-threads", 1, 3), lb_make<D>(s), occ, pb, pe, true, Mon(acc));
    judge_infinite<D, double>(pts, box, "load-balanced divide and conquer"); auto ref = reference<D, double>(pts); std::string what = "load-balanced divide and conquer (" + s.show() + ")";
    auto dt = dc.triangulate(); judge<D, double>(dt, pts, &ref, true, what.c_str());
    NoPreempt np; sim::note_state(sim::mix(ref.size(), (uint64_t) s.kind));
}
SIM_SCENARIO(E01, lb2d, 4) { lbdc_run<2>(41, 220); }
SIM_SCENARIO(E01, lb3d, 3) { lbdc_run<3>(41, 140); }

// ------------------------------------------------------------------ E02
template<uint D> using LTree = lb::PartitionTree<D, double>;
template<uint D> using Kids = typename LTree<D>::ChildContainer;
template<uint D> static void add_infinite(dPoints<D, double> &pts, const dBox<D, double> &b) {
    for (uint i = 0; i < (1u << D); ++i) { dPoint<D, double> p; for (uint d = 0; d < D; ++d) p.coords[d] = (b.low[d] + b.high[d]) / 2 + (i & (1u << d) ? 200 : -200) * (b.high[d] - b.low[d]); pts[dPoint<D, double>::cINF | i] = p; }
}
template<uint D> static std::vector<tIdType> finite_ids(const LTree<D> &t) { std::vector<tIdType> v; if (t.isLeaf()) { for (auto id : std::get<Point_Ids>(t.attachment)) if (dPoint<D, double>::isFinite(id)) v.push_back(id); } else for (auto &c : std::get<Kids<D>>(t.attachment)) { auto w = finite_ids<D>(c); v.insert(v.end(), w.begin(), w.end()); } return v; }
template<uint D> struct LeafInfo { std::vector<tIdType> ids; const LTree<D> *tree; };
template<uint D> static void leaves(const LTree<D> &t, std::vector<const LTree<D> *> &out) { if (t.isLeaf()) out.push_back(&t); else for (auto &c : std::get<Kids<D>>(t.attachment)) leaves<D>(c, out); }

// a sphere through D+1 points of one part, asked of another part
template<uint D> struct Probe { const dPoints<D, double> &pts; const LbSetup<D> &s; const dBox<D, double> &box; const char *what;
    void ask(const LTree<D> &node, const std::vector<tIdType> &own, const std::vector<tIdType> &from) const {
        if (from.size() < D + 1 || !node.intersectionChecker) return; std::array<tIdType, D + 1> v; dSphere<D, double> cs; dSimplex<D, double> sx; double ext = 0; bool claimed; int in = -2; tIdType who = 0;
        { sim::NoPreempt np; for (uint d = 0; d < D; ++d) ext = std::max(ext, box.high[d] - box.low[d]); std::set<tIdType> u; int mode = (int) sim::wl.below(3);
          if (mode == 0) while (u.size() < D + 1) u.insert(from[sim::wl.below(from.size())]);                                   // any points
          else { auto c = pts[from[sim::wl.below(from.size())]].coords; std::vector<std::pair<double, tIdType>> near; for (auto id : from) { double q = 0; for (uint d = 0; d < D; ++d) q += (pts[id].coords[d] - c[d]) * (pts[id].coords[d] - c[d]); near.push_back({q, id}); } std::sort(near.begin(), near.end()); for (auto &x : near) if (u.size() < D + 1 && (mode == 1 || u.empty() || sim::wl.coin(0.5))) u.insert(x.second); if (u.size() < D + 1) return; }   // neighbouring points
          std::copy(u.begin(), u.end(), v.begin()); sx = dSimplex<D, double>(v); cs = sx.circumsphere(pts); if (!std::isfinite(cs.radius) || cs.radius > 100 * ext) return; }
        claimed = node.intersectionChecker->intersects(cs, sx);
        sim::NoPreempt np; std::array<std::array<double, D>, D + 1> sc; for (uint i = 0; i < D + 1; ++i) for (uint d = 0; d < D; ++d) sc[i][d] = pts[v[i]].coords[d];
        for (auto id : own) { double q = 0; std::array<double, D> p; for (uint d = 0; d < D; ++d) { p[d] = pts[id].coords[d]; q += (p[d] - cs.center[d]) * (p[d] - cs.center[d]); } if (std::sqrt(q) < cs.radius * (1 - 1e-6) && oracle::in_sphere<D>(sc, p) == 1) { in = 1; who = id; break; } }
        if (in == 1 && !claimed) sim::violation("border-missed", str("%s: the circumsphere of a simplex of another part contains point %llu, but the part's border test denies that it reaches the part", what, (unsigned long long) who));
        auto cp = node.intersectionChecker->copy(); if (cp->intersects(cs, sx) != claimed) sim::violation("copy-differs", str("%s: a copy of the border test answers differently", what));
        if (claimed && s.kind != HYPER) { auto &b = node.intersectionChecker->bounds(); double q = 0, slack = s.checker && s.kind >= CENTER ? s.cell : 0; for (uint d = 0; d < D; ++d) { double e = std::max({b.low[d] - slack - cs.center[d], cs.center[d] - b.high[d] - slack, 0.0}); q += e * e; } if (std::sqrt(q) > cs.radius * (1 + 1e-6) + 1e-9 * ext) sim::violation("border-exaggerated", str("%s: a sphere that stays %g away from the part (radius %g) is reported to reach it", what, std::sqrt(q), cs.radius));
            if (slack > 0) { bool near = false; for (auto id : own) { double r = 0; for (uint d = 0; d < D; ++d) { double lo = std::floor(pts[id].coords[d] / s.cell) * s.cell - 1e-6 * s.cell, hi = lo + s.cell * (1 + 2e-6), e = std::max({lo - cs.center[d], cs.center[d] - hi, 0.0}); r += e * e; } if (std::sqrt(r) <= cs.radius * (1 + 1e-6) + 1e-9 * ext) { near = true; break; } }
                if (!near) sim::violation("border-exaggerated", str("%s: a sphere that touches no occupied cell of the part is reported to reach it", what)); } }
        sim::probe(claimed ? "sphere-reaches-part" : "sphere-misses-part"); }
};
template<uint D> static void walk(const LTree<D> &t, const dPoints<D, double> &pts, const Probe<D> &pr, const char *what, bool root) {
    std::vector<tIdType> own; { sim::NoPreempt np; own = finite_ids<D>(t); if (!t.intersectionChecker) sim::violation("no-border-test", str("%s: a node of the partition tree has no border test", what));
      auto &b = t.intersectionChecker->bounds(); for (auto id : own) if (!b.contains(pts[id].coords)) sim::violation("outside-bounds", str("%s: point %llu of a%s lies outside the part's bounds", what, (unsigned long long) id, root ? " tree" : t.isLeaf() ? " part" : " group of parts")); }
    if (t.isLeaf()) return; auto &kids = std::get<Kids<D>>(t.attachment);
    for (size_t i = 0; i < kids.size(); ++i) { walk<D>(kids[i], pts, pr, what, false); std::vector<tIdType> mine, from; { sim::NoPreempt np; mine = finite_ids<D>(kids[i]); for (size_t j = 0; j < kids.size(); ++j) if (j != i) { auto w = finite_ids<D>(kids[j]); if (from.empty() || sim::wl.coin(0.5)) from = w; } }
        for (int k = 0; k < 6; ++k) pr.ask(kids[i], mine, from); }
}
template<uint D> static void tree_run(size_t hi) {
    quiet_log(); sim::set_gap(50, 40000, 20, 2000); sim::set_limits(200000000, 400000000); size_t n = (size_t) knob("points", 20, (int64_t) hi); dPoints<D, double> pts; dBox<D, double> box = make_points<D, double>(pts, n); auto s = lb_setup<D>(box, n);
    if (knob_bool("grid-lines", 0.3)) { sim::NoPreempt np; s.cell = std::exp2(std::floor(std::log2(s.cell))); for (tIdType i = 1; i <= n; ++i) if (sim::wl.coin(0.5)) { uint d = (uint) sim::wl.below(D); double x = std::round(pts[i].coords[d] / s.cell) * s.cell; pts[i].coords[d] = x; box.low[d] = std::min(box.low[d], x); box.high[d] = std::max(box.high[d], x); } }
    add_infinite<D>(pts, box); Point_Ids ids = makePointIds<D, double>(pts); std::set<tIdType> given; bool subset = knob_bool("subset", 0.3);
    { sim::NoPreempt np; std::vector<tIdType> del; Point_Ids some; for (tIdType i = 1; i <= n; ++i) if (!subset || sim::wl.coin(0.7) || given.size() < 12) { given.insert(i); some.insert(i); } ids = std::move(some); if (s.sample > given.size()) s.sample = given.size(); }
    std::string w = "partitioning by " + s.show(); const char *what = w.c_str(); int rounds = (int) knob("rounds", 1, 2); bool copies = knob_bool("copy", 0.3); { lb::ComprehensiveAccumulator acc; Mon mon(acc); auto part = lb_make<D>(s);
    for (int round = 0; round < rounds; ++round) { auto tree = part->partition(box, pts, ids, mon);
        { sim::NoPreempt np; std::map<tIdType, int> seen; std::vector<const LTree<D> *> ls; leaves<D>(tree, ls);
          for (auto *l : ls) { std::set<tIdType> mine; for (auto id : std::get<Point_Ids>(l->attachment)) { if (dPoint<D, double>::isFinite(id)) ++seen[id]; if (!mine.insert(id).second) sim::violation("repeated-id", str("%s: id %llu twice in one part", what, (unsigned long long) id)); }
              for (tIdType k = dPoint<D, double>::cINF; k != 0; ++k) if (!mine.count(k) && ls.size() > 1) sim::violation("no-infinite-point", str("%s: a part lacks a point at infinity", what)); }
          for (auto id : given) if (seen[id] != 1) sim::violation(seen[id] ? "point-in-two-parts" : "point-lost", str("%s: point %llu is in %d parts", what, (unsigned long long) id, seen[id]));
          for (auto &x : seen) if (!given.count(x.first)) sim::violation("foreign-point", str("%s: point %llu was not to be partitioned", what, (unsigned long long) x.first));
          bool exact = s.kind == KWAY || s.kind == CENTER || s.kind == BOUNDSD || s.kind == NEAREST; if (exact ? ls.size() != s.p : ((s.kind == HYPER || s.kind == NEARBI) && ls.size() > s.p)) sim::violation("number-of-parts", str("%s: %zu parts", what, ls.size()));
          if (s.flat && !tree.isLeaf()) for (auto &c : std::get<Kids<D>>(tree.attachment)) if (!c.isLeaf()) sim::violation("not-flat", str("%s: the flattened tree has inner nodes below its root", what));
          sim::note_state(sim::mix(ls.size(), (uint64_t) s.kind * 3 + (uint64_t) s.checker));
          // the assignment each strategy promises
          if (auto *sp = dynamic_cast<lb::SamplePartitioner<D, double, Mon> *>(part.get()); sp && (s.kind == CENTER || s.kind == NEAREST || s.kind == BOUNDSD) && ls.size() == s.p) { auto &sm = sp->sampling(); std::vector<dVector<D, double>> mean(s.p); std::vector<dBox<D, double>> bb(s.p); std::vector<size_t> cnt(s.p, 0); for (auto &m : mean) m.fill(0);
              for (size_t i = 0; i < sm.partition.size(); ++i) { size_t k = (size_t) sm.partition[i]; for (uint d = 0; d < D; ++d) { mean[k][d] += sm.points[i][d]; if (!cnt[k]) bb[k].low[d] = bb[k].high[d] = sm.points[i][d]; bb[k].low[d] = std::min(bb[k].low[d], sm.points[i][d]); bb[k].high[d] = std::max(bb[k].high[d], sm.points[i][d]); } ++cnt[k]; }
              bool all = true; for (size_t k = 0; k < s.p; ++k) { if (!cnt[k]) all = false; else for (uint d = 0; d < D; ++d) mean[k][d] /= (double) cnt[k]; }
              auto dist = [&](size_t k, tIdType id) { double q = 0, best = 1e300; if (s.kind == NEAREST) { for (size_t i = 0; i < sm.points.size(); ++i) if ((size_t) sm.partition[i] == k) { q = 0; for (uint d = 0; d < D; ++d) q += std::pow(pts[id].coords[d] - sm.points[i][d], 2); best = std::min(best, q); } return std::sqrt(best); }
                  for (uint d = 0; d < D; ++d) { double x = pts[id].coords[d]; q += s.kind == CENTER ? std::pow(x - mean[k][d], 2) : std::pow(std::max({bb[k].low[d] - x, x - bb[k].high[d], 0.0}), 2); } return std::sqrt(q); };
              double ext = 0; for (uint d = 0; d < D; ++d) ext = std::max({ext, box.high[d] - box.low[d], std::abs(box.high[d]) * 1e-6}); if (all) for (size_t k = 0; k < ls.size(); ++k) for (auto id : finite_ids<D>(*ls[k])) { double mine = dist(k, id), best = 1e300; for (size_t j = 0; j < s.p; ++j) best = std::min(best, dist(j, id)); if (mine > best + 1e-7 * ext) sim::violation("wrong-part", str("%s: point %llu is %g away from what its part is centred on, another part is only %g away", what, (unsigned long long) id, mine, best)); } } }
        Probe<D> pr{pts, s, box, what}; walk<D>(tree, pts, pr, what, true);
        if (copies) { LTree<D> copy(tree); sim::NoPreempt np; if (finite_ids<D>(copy) != finite_ids<D>(tree)) sim::violation("copy-differs", str("%s: a copy of the tree holds other points", what)); walk<D>(copy, pts, pr, what, true); LTree<D> third; third.attachment = Point_Ids(); third = std::move(copy); if (finite_ids<D>(third) != finite_ids<D>(tree)) sim::violation("copy-differs", str("%s: a moved tree holds other points", what)); }
        if (!tree.isLeaf()) { std::vector<std::vector<tIdType>> per; for (auto &c : std::get<Kids<D>>(tree.attachment)) { sim::NoPreempt np; auto v = finite_ids<D>(c); std::sort(v.begin(), v.end()); per.push_back(v); }
            auto [old, chk] = lb::toOldPartitioning<D, double>(std::move(std::get<Kids<D>>(tree.attachment))); sim::NoPreempt np; if (old.size() != per.size() || chk.size() != per.size()) sim::violation("conversion", str("%s: %zu parts became %zu", what, per.size(), old.size()));
            for (size_t i = 0; i < per.size(); ++i) { std::vector<tIdType> v; size_t inf = 0; for (auto id : old[i].points) { if (dPoint<D, double>::isFinite(id)) v.push_back(id); else ++inf; } std::sort(v.begin(), v.end()); if (v != per[i] || inf != (1u << D) || old[i].id != i || !chk[i]) sim::violation("conversion", str("%s: part %zu changed while the tree was converted", what, i)); } }
    }
    }
}
SIM_SCENARIO(E02, tree2d, 4) { tree_run<2>(160); }
SIM_SCENARIO(E02, tree3d, 3) { tree_run<3>(160); }

// ------------------------------------------------------------------ E03
template<uint D> static void sample_run(size_t hi) {
    quiet_log(); sim::set_gap(50, 40000, 20, 2000); sim::set_limits(200000000, 400000000); size_t n = (size_t) knob("points", 12, (int64_t) hi); dPoints<D, double> pts; dBox<D, double> box = make_points<D, double>(pts, n); add_infinite<D>(pts, box);
    LbSetup<D> s; s.sample = (size_t) knob("sample", D + 2, (int64_t) n + 5); s.weights = (int) knob("weights", 0, 4); s.seed = (uint64_t) knob("sampler-seed", 1, 1000); size_t parts = (size_t) knob("parts", 1, 8); bool subset = knob_bool("subset", 0.3), inf = knob_bool("ids-with-infinite", 0.5);
    Point_Ids ids; std::map<std::array<double, D>, tIdType> at; { sim::NoPreempt np; size_t k = 0; for (tIdType i = 1; i <= n; ++i) if (!subset || k < 12 || sim::wl.coin(0.6)) { ids.insert(i); ++k; std::array<double, D> a; for (uint d = 0; d < D; ++d) a[d] = pts[i].coords[d]; at[a] = i; } if (inf) for (tIdType k2 = dPoint<D, double>::cINF; k2 != 0; ++k2) ids.insert(k2); }
    int calls = 0; simkahip::Call seen{}; std::vector<int> sx, sa, sw; simkahip::observer = [&](const simkahip::Call &c) { ++calls; seen = c; sx.assign(c.xadj, c.xadj + c.n + 1); sa.assign(c.adjncy, c.adjncy + sx.back()); if (c.adjcwgt) sw.assign(c.adjcwgt, c.adjcwgt + sx.back()); };
    struct Off { ~Off() { simkahip::observer = nullptr; } } off; auto sampler = lb_sampler<D>(s), again = lb_sampler<D>(s); auto sm = sampler(box, pts, ids, parts); std::string w = str("sampling %zu of %zu points (weights %d, %zu parts)", s.sample, at.size(), s.weights, parts); const char *what = w.c_str();
    { sim::NoPreempt np; auto &g = sm.graph; size_t k = sm.points.size(); if ((parts > 1 && (calls != 1 || seen.n != (int) k || seen.k != (int) parts)) || g.size() != k || sm.size() != k || sm.partition.size() != k) sim::violation("sample-size", str("%s: %zu sample points, graph of %zu, partition of %zu, %d graphs partitioned (%d vertices into %d)", what, k, g.size(), sm.partition.size(), calls, seen.n, seen.k));
      size_t want = std::min(s.sample, at.size()), ninf = inf ? (1u << D) : 0; if (k > want || k + ninf < std::min(s.sample, at.size() + ninf)) sim::violation("sample-size", str("%s: the sample has %zu points", what, k));
      std::vector<oracle::Pt<D>> op; std::set<tIdType> uniq; std::vector<tIdType> node; for (auto &p : sm.points) { std::array<double, D> a; for (uint d = 0; d < D; ++d) a[d] = p[d]; auto it = at.find(a); if (it == at.end()) sim::violation("foreign-sample", str("%s: a sample point is none of the points", what)); if (!uniq.insert(it->second).second) sim::violation("repeated-sample", str("%s: point %llu was drawn twice", what, (unsigned long long) it->second)); node.push_back(it->second); op.push_back({a, (uint64_t) op.size()}); }
      for (int p : sm.partition) if (p < 0 || p >= (int) parts) sim::violation("sample-part", str("%s: a sample point is in part %d", what, p));
      // the graph handed to the partitioner and the one published
      auto &x = g.nodeRecords; if (x.size() != k + 1 || x[0] != 0) sim::violation("graph-offsets", str("%s: the offsets of the graph do not start at 0", what)); for (size_t i = 0; i < k; ++i) if (x[i] > x[i + 1]) sim::violation("graph-offsets", str("%s: the offsets of the graph decrease at vertex %zu", what, i));
      if ((size_t) x[k] != g.adjacency.size() || g.edgeWeights.size() != g.adjacency.size()) sim::violation("graph-offsets", str("%s: offsets end at %d, there are %zu edges and %zu weights", what, x[k], g.adjacency.size(), g.edgeWeights.size()));
      if (calls && (sx != x || sa != g.adjacency || (!sw.empty() && sw != g.edgeWeights))) sim::violation("graph-differs", str("%s: the graph that was partitioned is not the published one", what));
      std::map<std::pair<int, int>, int> e; for (size_t i = 0; i < k; ++i) for (int j = x[i]; j < x[i + 1]; ++j) { int b = g.adjacency[(size_t) j]; if (b < 0 || b >= (int) k || b == (int) i) sim::violation("graph-edge", str("%s: vertex %zu has an edge to %d", what, i, b)); if (!e.emplace(std::make_pair((int) i, b), g.edgeWeights[(size_t) j]).second) sim::violation("graph-edge", str("%s: edge %zu-%d occurs twice", what, i, b)); }
      if (k > D + 1) { std::set<std::pair<int, int>> de; for (auto &t : oracle::delaunay<D>(op)) for (auto a : t) for (auto b : t) if (a != b && a < k && b < k) de.insert({(int) a, (int) b}); for (auto &p : de) if (!e.count(p)) sim::violation("graph-edge-missing", str("%s: edge %d-%d of the Delaunay triangulation of the sample is missing", what, p.first, p.second)); for (auto &p : e) if (!de.count(p.first)) sim::violation("graph-edge-foreign", str("%s: edge %d-%d is no edge of the Delaunay triangulation of the sample", what, p.first.first, p.first.second)); }
      double diag = 0; for (uint d = 0; d < D; ++d) diag += (box.high[d] - box.low[d]) * (box.high[d] - box.low[d]); double f0 = s.weights ? lb_weight(s.weights, 0) : 0, f1 = s.weights ? lb_weight(s.weights, 1) : 0, lo = std::min(f0, f1), hi2 = std::max(f0, f1);
      for (auto &p : e) { auto r = e.find({p.first.second, p.first.first}); if (r == e.end() || r->second != p.second) sim::violation("graph-asymmetric", str("%s: edge %d-%d weighs %d, the opposite one %d", what, p.first.first, p.first.second, p.second, r == e.end() ? -1 : r->second));
          if (!s.weights) { if (p.second != 1) sim::violation("edge-weight", str("%s: uniform edge weight is %d", what, p.second)); continue; } double q = 0; for (uint d = 0; d < D; ++d) q += std::pow(sm.points[(size_t) p.first.first][d] - sm.points[(size_t) p.first.second][d], 2); double v = 1 + 98 * (std::clamp(lb_weight(s.weights, q / diag), lo, hi2) - lo) / (hi2 - lo);
          if (std::abs(p.second - v) > 1.001) sim::violation("edge-weight", str("%s: an edge of squared length %g (bounding box %g) weighs %d, its length maps to %.3f", what, q, diag, p.second, v)); }
      sim::note_state(sim::mix(k, e.size())); }
    auto sm2 = again(box, pts, ids, parts); sim::NoPreempt np; std::set<std::array<double, D>> a, b; for (auto &p : sm.points) { std::array<double, D> z; for (uint d = 0; d < D; ++d) z[d] = p[d]; a.insert(z); } for (auto &p : sm2.points) { std::array<double, D> z; for (uint d = 0; d < D; ++d) z[d] = p[d]; b.insert(z); }
    if (a != b) sim::violation("sample-not-reproducible", str("%s: the same seed draws another sample", what));
}
SIM_SCENARIO(E03, sample2d, 3) { sample_run<2>(120); }
SIM_SCENARIO(E03, sample3d, 2) { sample_run<3>(100); }

// ------------------------------------------------------------------ E04
// hands the real partitioner's tree through, notes what it saw
template<uint D> struct Spy : LbPart<D> {
    struct Seen { std::multiset<size_t> leaves; size_t filled = 0, sample = 0; bool sampled = false; uint64_t begin = 0, end = 0; std::multiset<size_t> samples; };
    std::unique_ptr<LbPart<D>> real; std::vector<Seen> *out; uint64_t delay; std::string name;
    Spy(std::unique_ptr<LbPart<D>> r, std::vector<Seen> *o, uint64_t d) : real(std::move(r)), out(o), delay(d), name(real->info()) {}
    LTree<D> partition(const dBox<D, double> &b, dPoints<D, double> &p, const Point_Ids &ids, Mon &m) override {
        Seen s; s.begin = sim::now_ns(); if (delay) sim::sleep_ns(delay); auto t = real->partition(b, p, ids, m); if (delay) sim::sleep_ns(delay); s.end = sim::now_ns();
        sim::NoPreempt np; std::vector<const LTree<D> *> ls; leaves<D>(t, ls); for (auto *l : ls) { s.leaves.insert(std::get<Point_Ids>(l->attachment).size()); s.filled += !l->isEmpty(); } out->push_back(s); return t; }
    std::string info() const override { return name; }
};
template<uint D> static void monitor_run(size_t hi) {
    some_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(400000000, 800000000); size_t n = (size_t) knob("points", 41, (int64_t) hi); dPoints<D, double> pts; dBox<D, double> box = make_points<D, double>(pts, n); auto s = lb_setup<D>(box, n); s.flat = false; std::string w = "load-balanced triangulation, " + s.show(); const char *what = w.c_str();
    std::vector<typename Spy<D>::Seen> seen; lb::ComprehensiveAccumulator acc; uint64_t delay = (uint64_t) knob_pick("delay-ms", {0, 0, 3, 250}) * 1000000; bool jump = knob_bool("clock-step", 0.4);
    auto real = lb_make<D>(s); auto *sp = dynamic_cast<lb::SamplePartitioner<D, double, Mon> *>(real.get()); lb::DCTriangulator<D, double, Mon> dc(box, pts, 1u << knob("log-threads", 1, 3), std::make_unique<Spy<D>>(std::move(real), &seen, delay), 100, false, knob_bool("parallel-edge", 0.5), true, Mon(acc));
    uint64_t t0 = sim::now_ns(); int stepper = -1; bool stop = false; if (jump) stepper = sim::spawn([&] { for (int i = 0; i < 3 && !stop; ++i) { sim::sleep_ns((uint64_t) wlrange(1000, 500000)); sim::jump_wall_clock(wlrange(-3600, 3600) * 1000000000ll); } }, "ntp");
    auto dt = dc.triangulate(); uint64_t t1 = sim::now_ns(); stop = true; if (stepper >= 0) sim::join(stepper);
    sim::NoPreempt np; if (seen.size() != 1) sim::violation("partitioned-twice", str("%s: the points were partitioned %zu times", what, seen.size())); auto &o = seen[0];
    double total = (double) (t1 - t0) / 1e6, inner = (double) (o.end - o.begin) / 1e6, pt = (double) acc.partitionTime.count(), tt = (double) acc.triangulationTime.count();
    if (pt < inner - 1 || pt < 0 || tt < 0 || pt + tt > total + 1e-9) sim::violation("wrong-duration", str("%s: partitioning took %.3f ms of %.3f ms altogether, reported are %.0f ms and %.0f ms for the triangulation", what, inner, total, pt, tt));
    if (tt < (double) (t1 - o.end) / 1e6 - 2 - total * 0.5 && tt < (double) (t1 - o.end) / 1e6 * 0.3 - 1) sim::violation("wrong-duration", str("%s: triangulating took about %.3f ms, %.0f are reported", what, (double) (t1 - o.end) / 1e6, tt));
    if (std::multiset<size_t>(acc.partitionSizes.begin(), acc.partitionSizes.end()) != o.leaves) sim::violation("partition-sizes", str("%s: the sizes of %zu parts are reported, there are %zu", what, acc.partitionSizes.size(), o.leaves.size()));
    size_t sum = 0; std::multiset<size_t> base; size_t edges = 0, samples = 0; std::multiset<std::string> provs; for (auto &b : acc.baseTriangulations) { sum += b.first; if (b.second[0] == 's') ++samples; else if (b.second.find('e') != std::string::npos) ++edges; else { base.insert(b.first); } if (b.second[0] != 's' && !b.second.empty() && provs.count(b.second)) sim::violation("base-triangulations", str("%s: base triangulation %s is reported twice", what, b.second.c_str())); provs.insert(b.second); }
    if (sum != acc.numTriangulatedPoints) sim::violation("triangulated-points", str("%s: %zu points are reported, the base triangulations have %zu", what, acc.numTriangulatedPoints, sum));
    std::multiset<size_t> want; for (auto x : o.leaves) want.insert(x); std::multiset<size_t> nonempty; size_t inf = 1u << D; for (auto x : want) if (x > inf) nonempty.insert(x);
    if (base != nonempty) sim::violation("base-triangulations", str("%s: %zu base triangulations of parts are reported, there are %zu parts with points", what, base.size(), nonempty.size()));
    if (nonempty.size() > 1 ? edges < 1 || edges > nonempty.size() - 1 : edges) sim::violation("base-triangulations", str("%s: %zu border triangulations are reported for %zu parts", what, edges, nonempty.size()));
    if ((s.sampled() ? samples < 1 && o.leaves.size() > 1 : samples != 0)) sim::violation("base-triangulations", str("%s: %zu sample triangulations are reported", what, samples));
    (void) sp; sim::note_state(sim::mix(base.size(), edges));
}
SIM_SCENARIO(E04, monitor2d, 3) { monitor_run<2>(160); }
SIM_SCENARIO(E04, monitor3d, 1) { monitor_run<3>(100); }

static std::string field(const std::string &t, const char *k, size_t from = 0) { auto p = t.find("\"" + std::string(k) + "\":", from); if (p == std::string::npos) return ""; p = t.find(':', p) + 1; while (t[p] == ' ') ++p; auto e = t.find_first_of(",\n", p); return t.substr(p, e - p); }
static size_t many(const std::string &t, const char *k) { size_t c = 0; std::string q = "\"" + std::string(k) + "\":"; for (size_t p = t.find(q); p != std::string::npos; p = t.find(q, p + 1)) ++c; return c; }
template<uint D> static void experiment_run(size_t hi) {
    quiet_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(400000000, 800000000); size_t n = (size_t) knob("points", 41, (int64_t) hi); dPoints<D, double> pts; dBox<D, double> box = make_points<D, double>(pts, n); auto s = lb_setup<D>(box, n); s.flat = false; std::string w = "experiment, " + s.show(); const char *what = w.c_str();
    std::vector<typename Spy<D>::Seen> seen; std::stringstream out; int runs = (int) knob("runs", 1, 3); bool verify = knob_bool("verify", 0.5); oracle::Simplices<D> ref; std::vector<std::string> part; std::string head, tail; bool ok = true;
    { typename lb::Experiment<D, double>::Setup set; set.argumentString = "args"; set.bounds = box; set.points = std::move(pts); set.verify = verify; set.distribution = "d"; set.threads = 1u << knob("log-threads", 1, 3); set.seed = 7; uint64_t delay = (uint64_t) knob_pick("delay-ms", {0, 0, 3, 250}) * 1000000;
      lb::Experiment<D, double> ex(std::make_unique<Spy<D>>(lb_make<D>(s), &seen, delay), std::move(set), out); { sim::NoPreempt np; head = out.str(); out.str(""); }
      for (int r = 0; r < runs; ++r) { ok &= ex.runOnce(); sim::NoPreempt np; part.push_back(out.str()); out.str(""); } }
    sim::NoPreempt np; tail = out.str(); if (!ok) sim::violation("verification", str("%s: a run is reported invalid", what)); std::string all = head; for (auto &p : part) all += p; all += tail; int depth = 0; for (char c : all) { depth += c == '{' || c == '['; depth -= c == '}' || c == ']'; if (depth < 0) break; } if (depth) sim::violation("report-syntax", str("%s: unbalanced brackets in the report", what));
    if (field(all, "numpoints") != std::to_string(n)) sim::violation("report", str("%s: %s points are reported, there are %zu", what, field(all, "numpoints").c_str(), n));
    if (seen.size() != (size_t) runs) sim::violation("report", str("%s: the points were partitioned %zu times in %d runs", what, seen.size(), runs));
    std::string simplices; for (int r = 0; r < runs; ++r) { auto &t = part[(size_t) r]; auto &o = seen[(size_t) r]; if (r == 0) simplices = field(t, "simplices"); if (field(t, "simplices") != simplices || simplices.empty()) sim::violation("report", str("%s: run %d reports %s simplices, the first one %s", what, r, field(t, "simplices").c_str(), simplices.c_str()));
        double inner = (double) (o.end - o.begin) / 1e6, pt = std::atof(field(t, "partitiontime").c_str()); if (pt < inner - 1) sim::violation("wrong-duration", str("%s: partitioning in run %d took %.3f ms, %.0f are reported", what, r, inner, pt));
        std::multiset<size_t> got; size_t end = t.find("basetriangulations"); for (size_t p = t.find("\"size\":"); p < end; p = t.find("\"size\":", p + 1)) got.insert((size_t) std::atoll(t.c_str() + p + 7));
        if (got != o.leaves) sim::violation("run-report", str("%s: run %d reports the sizes of %zu parts, there are %zu", what, r, got.size(), o.leaves.size())); size_t sum = 0; for (size_t p = t.find("\"points\":"); p != std::string::npos; p = t.find("\"points\":", p + 1)) sum += (size_t) std::atoll(t.c_str() + p + 9);
        if (std::to_string(sum) != field(t, "triangulatedPoints")) sim::violation("run-report", str("%s: run %d reports %s triangulated points, its base triangulations have %zu", what, r, field(t, "triangulatedPoints").c_str(), sum));
        if (verify ? field(t, "valid") != "true" : !field(t, "valid").empty()) sim::violation("verification", str("%s: run %d reports valid=%s", what, r, field(t, "valid").c_str())); (void) many; }
}
SIM_SCENARIO(E04, experiment2d, 2) { experiment_run<2>(120); }
SIM_SCENARIO(E04, experiment3d, 1) { experiment_run<3>(80); }

// C16: the same runs, judged by what is left of their memory
static sim::Alias c16("C16", {"E01", "E02", "E03", "E04"}, sim::CHECK_LEAKS);
