// D01/D02 divide-and-conquer triangulation, D04 point statistics and partitioners, D06 verify/crossCheck, D07 parallel base solver.
#include "common.h"
#include "oracle.h"
#include "geo.h"
#include "DCTriangulator.h"
#include "CGALTriangulator.h"
#include "Partitioner.h"
#include "utils/MakeIds.h"
#include "utils/Serialization.hxx"
#include <cmath>
#include <cstring>
#include <optional>

using sim::str; using sim::knob; using sim::knob_pick; using sim::knob_bool; using sim::NoPreempt;

// ------------------------------------------------------------------ D01 / D02
template<uint D, typename P> static void dc_run(bool structure, size_t lo, size_t hi) {
    some_log(); sim::set_limits(300000000, 600000000); size_t n = (size_t) knob("points", (int64_t) lo, (int64_t) hi); dPoints<D, P> pts; dBox<D, P> box = make_points<D, P>(pts, n);
    static const char kinds[] = {'c', 'e', 'd', '0', '1', '2'}; char part = kinds[knob("partitioner", 0, D == 2 ? 4 : 5)];
    uint depth = (uint) knob("depth", 1, part == 'd' ? 2 : 3), threads = 1u << (part == 'd' ? D * depth : depth);
    bool pe = knob_bool("parallel-edge", 0.7), pb = D == 3 && knob_bool("parallel-base", 0.25); uint occ = (uint) knob_pick("grid-occupancy", {1, 2, 10, 100});
    DCTriangulator<D, P> dc(box, pts, threads, Partitioner<D, P>::make((unsigned char) part), occ, pb, pe);
    judge_infinite<D, P>(pts, box, "divide and conquer"); auto ref = reference<D, P>(pts);
    auto dt = dc.triangulate();
    judge<D, P>(dt, pts, &ref, structure, "divide and conquer");
    NoPreempt np; sim::note_state(ref.size());
}
SIM_SCENARIO(D01, dc2d, 4) { sim::set_gap(2000, 400000, 100, 20000); dc_run<2, double>(false, 41, 260); }
SIM_SCENARIO(D01, dc3d, 3) { sim::set_gap(2000, 400000, 100, 20000); dc_run<3, double>(false, 41, 160); }
SIM_SCENARIO(D02, dc2d, 4) { sim::set_gap(2000, 400000, 100, 20000); dc_run<2, double>(true, 41, 260); }
SIM_SCENARIO(D02, dc3d, 3) { sim::set_gap(2000, 400000, 100, 20000); dc_run<3, double>(true, 41, 160); }

// ------------------------------------------------------------------ D04 statistics and partitioners
template<uint D, typename P> static void round_some(dPoints<D, P> &pts) {   // shared coordinates and equal points are legal for a partitioner
    if (!knob_bool("grid-points", 0.3)) return; NoPreempt np; double g = 0; for (tIdType i = 1; i < pts.finite_size(); ++i) g = std::max(g, (double) std::abs(pts[i].coords[0])); g /= (double) sim::wl.range(1, 6); if (g <= 0) return;
    for (tIdType i = 1; i < pts.finite_size(); ++i) for (uint d = 0; d < D; ++d) pts[i].coords[d] = (P) (std::round(pts[i].coords[d] / g) * g);
}
template<uint D, typename P> static void place_inf(dPoints<D, P> &pts) { for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) for (uint d = 0; d < D; ++d) pts[k].coords[d] = (P) ((k & (1u << d)) ? 1e7 : -1e7); }
template<uint D, typename P> static dPointStats<D, P> exact_stats(const std::set<tIdType> &ids, const dPoints<D, P> &pts, bool inf) {
    dPointStats<D, P> s; bool first = true;
    for (auto id : ids) if (inf || dPoint<D, P>::isFinite(id)) { for (uint d = 0; d < D; ++d) { P c = pts[id].coords[d]; if (first || c < s.min[d]) s.min[d] = c; if (first || c > s.max[d]) s.max[d] = c; } first = false; }
    for (uint d = 0; d < D; ++d) s.mid[d] = (s.max[d] + s.min[d]) / 2;
    return s;
}
template<uint D, typename P> static std::string show_stats(const dPointStats<D, P> &s) { std::string r; for (uint d = 0; d < D; ++d) r += str("[%.17g %.17g %.17g]", (double) s.min[d], (double) s.mid[d], (double) s.max[d]); return r; }
template<uint D, typename P> static void stats_check(const dPointStats<D, P> &got, const dPointStats<D, P> &want, const char *what) { NoPreempt np; if (!(got == want)) sim::violation("wrong-stats", str("%s: min/mid/max %s, the points have %s", what, show_stats(got).c_str(), show_stats(want).c_str())); }
template<uint D, typename P> static void subset(const dPoints<D, P> &pts, Point_Ids &ids, std::set<tIdType> &in, bool inf) {
    NoPreempt np; double keep = sim::wl.coin(0.5) ? 1 : 0.2 + 0.8 * sim::wl.unit();
    for (tIdType i = 1; i < pts.finite_size(); ++i) if (sim::wl.unit() < keep || in.size() < 2) { ids.insert(i); in.insert(i); }
    if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) { ids.insert(k); in.insert(k); }
}
template<uint D, typename P> static void stats_run() {
    quiet_log(); dPoints<D, P> pts; make_points<D, P>(pts, (size_t) knob("points", 2, 300)); round_some<D, P>(pts); place_inf<D, P>(pts);
    bool inf = knob_bool("ids-with-infinite", 0.6); Point_Ids ids(pts.size()); std::set<tIdType> in; subset<D, P>(pts, ids, in, inf);
    auto want = exact_stats<D, P>(in, pts, false);
    stats_check<D, P>(getPointStats(ids, pts), want, "getPointStats of a set of ids");
    stats_check<D, P>(getPointStatsSeq(ids.begin(), ids.end(), pts), want, "getPointStatsSeq of a set of ids");
    if (inf) { auto wi = exact_stats<D, P>(in, pts, true); stats_check<D, P>(getPointStats(ids, pts, false), wi, "getPointStats including infinite points"); stats_check<D, P>(getPointStatsSeq(ids.begin(), ids.end(), pts, false), wi, "getPointStatsSeq including infinite points"); }
    std::set<tIdType> all; { NoPreempt np; for (tIdType i = 1; i < pts.finite_size(); ++i) all.insert(i); }
    auto wa = exact_stats<D, P>(all, pts, false); stats_check<D, P>(getPointStats(pts, pts), wa, "getPointStats of all points");
    stats_check<D, P>(getPointStatsSeq((tIdType) 1, (tIdType) pts.finite_size(), pts), wa, "getPointStatsSeq of an id range");
    auto mk = makePointIds(pts); NoPreempt np; size_t ninf = dPoint<D, P>::nINF; SIM_CHECK(mk.size() == all.size() + ninf, "make-ids", str("makePointIds yields %zu ids for %zu points", (size_t) mk.size(), all.size())); for (auto i : all) SIM_CHECK(mk.contains(i), "make-ids", "makePointIds misses a point");
}
template<uint D, typename P> static void part_run() {
    quiet_log(); dPoints<D, P> pts; make_points<D, P>(pts, (size_t) knob("points", 1, 300)); round_some<D, P>(pts);
    bool inf = knob_bool("ids-with-infinite", 0.6), ign = knob_bool("ignore-infinite", 0.3); Point_Ids ids(pts.size()); std::set<tIdType> in; subset<D, P>(pts, ids, in, inf);
    static const char kinds[] = {'c', 'e', 'd', '0', '1', '2'}; char kind = kinds[knob("partitioner", 0, D == 2 ? 4 : 5)]; size_t plen = (size_t) knob("provenance", 1, 6);
    auto part = Partitioner<D, P>::make((unsigned char) kind); auto want = exact_stats<D, P>(in, pts, false); std::string prov(plen, '0');
    bool own = knob_bool("given-stats", 0.3); Partitioning<D, P> res = own ? part->partition(want, ids, pts, prov, ign) : part->partition(ids, pts, prov, ign);
    NoPreempt np; size_t parts = kind == 'd' ? 1u << D : 2; SIM_CHECK(res.size() == parts, "part-count", str("partitioner %c makes %zu parts", kind, res.size()));
    std::map<tIdType, int> where;
    for (size_t i = 0; i < res.size(); ++i) { auto &p = res[i]; SIM_CHECK(p.id == i, "part-id", str("part %zu has id %u", i, p.id)); size_t cnt = 0, infs = 0;
        for (auto id : p.points) { ++cnt; if (!dPoint<D, P>::isFinite(id)) { ++infs; continue; } if (!in.count(id)) sim::violation("foreign-point", str("part %zu holds point %llu, which was not to be partitioned", i, (unsigned long long) id)); if (!where.emplace(id, (int) i).second) sim::violation("point-twice", str("point %llu is in two parts", (unsigned long long) id));
            for (uint d = 0; d < D; ++d) if (!(p.bounds.low[d] <= pts[id].coords[d] && pts[id].coords[d] <= p.bounds.high[d])) sim::violation("bounds", str("point %llu of part %zu lies outside the bounds of its part in dimension %u (%.17g not in %.17g..%.17g)", (unsigned long long) id, i, d, (double) pts[id].coords[d], (double) p.bounds.low[d], (double) p.bounds.high[d]));
            if (!p.contains(id) || res.partition(id) != i) sim::violation("part-lookup", str("point %llu is not found in its part %zu", (unsigned long long) id, i)); }
        if (cnt != p.points.size()) sim::violation("part-size", str("part %zu has size %zu but %zu points", i, (size_t) p.points.size(), cnt));
        if (infs != (ign ? 0 : (size_t) dPoint<D, P>::nINF)) sim::violation("infinite-points", str("part %zu has %zu infinite points (ignore=%d)", i, infs, ign));
        for (uint d = 0; d < D; ++d) if (!(p.bounds.low[d] >= want.min[d] && p.bounds.high[d] <= want.max[d])) sim::violation("bounds", str("the bounds of part %zu exceed the bounding box of the points in dimension %u", i, d)); }
    for (auto i : in) if (dPoint<D, P>::isFinite(i) && !where.count(i)) sim::violation("point-lost", str("point %llu is in no part", (unsigned long long) i));
    // the parts' boxes tile the bounding box: interiors disjoint, volumes add up
    double vol = 1, sum = 0; for (uint d = 0; d < D; ++d) vol *= (double) want.max[d] - (double) want.min[d]; for (auto &p : res) { double v = 1; for (uint d = 0; d < D; ++d) v *= (double) p.bounds.high[d] - (double) p.bounds.low[d]; sum += v; }
    if (std::abs(sum - vol) > 1e-6 * std::abs(vol)) sim::violation("bounds", str("the boxes of the parts have volume %g, the bounding box has %g", sum, vol));
    if (kind == 'e') { int best = 0; for (uint d = 1; d < D; ++d) if (want.max[d] - want.min[d] > want.max[best] - want.min[best]) best = (int) d; if (res[0].bounds.high[best] != want.mid[best]) sim::violation("split-dimension", "the widest dimension is not the one split"); }
    if (kind == 'c') { uint k = (uint) ((plen - 1) % D); if (res[0].bounds.high[k] != want.mid[k]) sim::violation("split-dimension", str("dimension %u is not split at recursion depth %zu", k, plen - 1)); }
}
SIM_SCENARIO(D04, stats2d, 2) { stats_run<2, double>(); }
SIM_SCENARIO(D04, stats3f, 2) { stats_run<3, float>(); }
SIM_SCENARIO(D04, part2d, 2) { part_run<2, double>(); }
SIM_SCENARIO(D04, part3d, 2) { part_run<3, double>(); }
SIM_SCENARIO(D04, part2f, 1) { part_run<2, float>(); }

// ------------------------------------------------------------------ D06 verification and cross check
template<uint D> using Vtx = std::array<uint64_t, D + 1>;
template<uint D, typename P> static Vtx<D> vtx(const dSimplex<D, P> &s) { Vtx<D> v; for (uint i = 0; i < D + 1; ++i) v[i] = s.vertices[i]; return v; }
template<uint D, typename P> struct Expect { std::set<std::pair<tIdType, tIdType>> wrong, dup; std::map<tIdType, std::set<tIdType>> circle; bool hull = true, points = true, links = true; bool valid() const { return links && wrong.empty() && dup.empty() && circle.empty() && hull && points; } };
// what a faultless verification has to report about dt (pairs of simplices sharing a face, circles of links, hull, points)
template<uint D, typename P> static Expect<D, P> expected(const dSimplices<D, P> &dt, const dPoints<D, P> &pts) {
    Expect<D, P> e; std::map<std::array<uint64_t, D>, std::vector<tIdType>> faces; std::map<Vtx<D>, std::vector<tIdType>> same; std::set<tIdType> used, hull(dt.convexHull.begin(), dt.convexHull.end());
    for (const auto &s : dt) { auto v = vtx<D, P>(s); same[v].push_back(s.id); bool inf = false; for (auto x : v) { used.insert(x); inf |= !dPoint<D, P>::isFinite(x); } if (inf != (hull.count(s.id) > 0)) e.hull = false;
        for (uint d = 0; d < D + 1; ++d) { std::array<uint64_t, D> f; uint j = 0; for (uint i = 0; i < D + 1; ++i) if (i != d) f[j++] = v[i]; faces[f].push_back(s.id); } }
    for (auto &x : same) for (auto a : x.second) for (auto b : x.second) if (a != b) e.dup.insert({a, b});
    for (auto &f : faces) for (auto a : f.second) for (auto b : f.second) if (a != b && vtx<D, P>(dt.unsafe_at(a)) != vtx<D, P>(dt.unsafe_at(b))) { auto &na = dt.unsafe_at(a).neighbors, &nb = dt.unsafe_at(b).neighbors; if (std::find(na.begin(), na.end(), b) == na.end() || std::find(nb.begin(), nb.end(), a) == nb.end()) e.wrong.insert({a, b}); }
    auto shared = [](const Vtx<D> &a, const Vtx<D> &b) { uint k = 0; for (auto x : a) k += std::find(b.begin(), b.end(), x) != b.end(); return k; };
    for (const auto &s : dt) for (auto n : s.neighbors) if (n != dSimplex<D, P>::cINF && !dt.unsafe_contains(n)) e.links = false; else if (n != dSimplex<D, P>::cINF && shared(vtx<D, P>(s), vtx<D, P>(dt.unsafe_at(n))) != D) e.wrong.insert({s.id, n});
    for (const auto &s : dt) { auto v = vtx<D, P>(s); std::array<std::array<double, D>, D + 1> c; for (uint i = 0; i < D + 1; ++i) for (uint d = 0; d < D; ++d) c[i][d] = pts[v[i]].coords[d];
        for (auto n : s.neighbors) if (n != dSimplex<D, P>::cINF && dt.unsafe_contains(n)) for (auto q : dt.unsafe_at(n).vertices) if (dPoint<D, P>::isFinite(q) && std::find(v.begin(), v.end(), q) == v.end()) { std::array<double, D> pc; for (uint d = 0; d < D; ++d) pc[d] = pts[q].coords[d]; if (oracle::in_sphere<D>(c, pc) > 0) e.circle[s.id].insert(q); } }
    for (tIdType i = 1; i < pts.finite_size(); ++i) if (!used.count(i)) e.points = false; for (auto u : used) if (u == 0 || (dPoint<D, P>::isFinite(u) && u >= pts.finite_size())) e.points = false;
    return e;
}
template<uint D, typename P> static void verdict(const VerificationReport<D, P> &r, const Expect<D, P> &e, const char *what) {
    NoPreempt np; if (r.valid != e.valid()) sim::violation("wrong-verdict", str("%s: verify says %s, but it is %s (wrong links %zu, duplicates %zu, non-empty circles %zu, hull %d, points %d)", what, r.valid ? "valid" : "not valid", e.valid() ? "valid" : "not valid", e.wrong.size(), e.dup.size(), e.circle.size(), e.hull, e.points));
    std::set<std::pair<tIdType, tIdType>> w, d; for (auto &x : r.wrongNeighbors) w.insert({x.first.id, x.second.id}); for (auto &x : r.duplicates) d.insert({x.first.id, x.second.id});
    for (auto &x : e.wrong) if (!w.count(x)) sim::violation("report-incomplete", str("%s: the wrong neighbour relation between simplices %llu and %llu is not reported (%zu of %zu are)", what, (unsigned long long) x.first, (unsigned long long) x.second, w.size(), e.wrong.size()));
    for (auto &x : e.dup) if (!d.count(x)) sim::violation("report-incomplete", str("%s: the duplicate simplices %llu and %llu are not reported", what, (unsigned long long) x.first, (unsigned long long) x.second));
    for (auto &x : d) if (!e.dup.count(x)) sim::violation("report-foreign", str("%s: simplices %llu and %llu are reported as duplicates", what, (unsigned long long) x.first, (unsigned long long) x.second));
    size_t have = 0, want = 0; for (auto &x : e.circle) want += x.second.size(); for (auto &x : r.inCircle) { have += x.second.size(); auto it = e.circle.find(x.first.id); for (auto q : x.second) if (it == e.circle.end() || !it->second.count(q)) sim::violation("report-foreign", str("%s: point %llu is reported inside the circle of simplex %llu", what, (unsigned long long) q, (unsigned long long) x.first.id)); }
    if (have != want) sim::violation("report-incomplete", str("%s: %zu points inside circles reported, there are %zu", what, have, want));
}
template<uint D, typename P> static void verify_run(size_t maxpts) {
    some_log(); sim::set_limits(200000000, 400000000); dPoints<D, P> pts; dBox<D, P> box = make_points<D, P>(pts, (size_t) knob("points", D + 2, (int64_t) maxpts));
    DCTriangulator<D, P> dc(box, pts, 1u << knob("log-threads", 0, 3), Partitioner<D, P>::make('c'), 1, false, false); auto dt = dc.triangulate();
    int kind = (int) knob("corruption", 0, 8); size_t times = (size_t) knob("corruptions", 1, 6); bool ids = knob_bool("point-ids", 0.3); Point_Ids pids = makePointIds(pts); std::string what = "a correct triangulation";
    { NoPreempt np; std::vector<tIdType> all; for (const auto &s : dt) all.push_back(s.id); auto pick = [&] { return all[sim::wl.below(all.size())]; };
      for (size_t t = 0; kind && t < times; ++t) switch (kind) {
        case 1: { auto &s = dt.unsafe_at(pick()); s.neighbors[sim::wl.below(D + 1)] = dSimplex<D, P>::cINF; what = "a triangulation with cut neighbour links"; break; }
        case 2: { auto &s = dt.unsafe_at(pick()); tIdType o = pick(); if (std::find(s.neighbors.begin(), s.neighbors.end(), o) == s.neighbors.end() && o != s.id) s.neighbors[sim::wl.below(D + 1)] = o; what = "a triangulation with redirected neighbour links"; break; }
        case 3: if (!dt.convexHull.empty()) { size_t i = sim::wl.below(dt.convexHull.size()); dt.convexHull.erase(dt.convexHull.begin() + (long) i); } what = "a triangulation with an incomplete hull"; break;
        case 4: { tIdType o = pick(); if (dt.unsafe_at(o).isFinite()) dt.convexHull.push_back(o); what = "a triangulation with finite hull simplices"; break; }
        case 5: { tIdType lo = dt.upperBound(); dSimplices<D, P> extra(lo, lo + 1, 0); auto src = dt.unsafe_at(pick()); auto &x = extra.unsafe_at(lo); x = src; x.id = lo; if (!src.isFinite()) extra.convexHull.push_back(lo); dt.merge(std::move(extra)); what = "a triangulation with duplicate simplices"; break; }
        case 6: if (t == 0) { dPoint<D, P> p; for (uint d = 0; d < D; ++d) p.coords[d] = (box.low[d] + box.high[d]) / 2 + (P) ((box.high[d] - box.low[d]) * 1e-3 * sim::wl.unit()); pts.emplace_back(p); pids.insert(pts.finite_size() - 1); } what = "a triangulation that misses a point"; break;
        case 8: { tIdType o = pick(); dt.unsafe_at(o).id = dSimplex<D, P>::cINF; dt.convexHull.erase(std::remove(dt.convexHull.begin(), dt.convexHull.end(), o), dt.convexHull.end()); what = "a triangulation with simplices removed"; all.erase(std::find(all.begin(), all.end(), o)); break; }
        default: { tIdType i = 1 + sim::wl.below(pts.finite_size() - 1); for (uint d = 0; d < D; ++d) pts[i].coords[d] += (P) ((box.high[d] - box.low[d]) * 0.3 * (sim::wl.unit() - 0.5)); what = "a triangulation whose points moved"; } } }
    Expect<D, P> e; { NoPreempt np; e = expected<D, P>(dt, pts); }
    auto r = dt.verify(pts, ids ? &pids : nullptr); verdict<D, P>(r, e, what.c_str()); sim::note_state((uint64_t) kind * 64 + (e.valid() ? 1 : 0) + 2 * std::min<size_t>(e.wrong.size(), 15));
}
SIM_SCENARIO(D06, verify2d, 3) { verify_run<2, double>(90); }
SIM_SCENARIO(D06, verify3d, 2) { verify_run<3, double>(45); }

// two triangulations compared; simplices removed from either one
template<uint D, typename P> static void remove_some(dSimplices<D, P> &dt, size_t n, std::set<Vtx<D>> &gone) {
    NoPreempt np; std::vector<tIdType> all; for (const auto &s : dt) all.push_back(s.id); std::set<tIdType> del; size_t run = sim::wl.below(2);
    for (size_t i = 0; i < n && !all.empty(); ++i) { size_t at = sim::wl.below(all.size()); for (size_t j = at; j < all.size() && j <= at + run * 3; ++j) del.insert(all[j]); }
    for (auto id : del) { gone.insert(vtx<D, P>(dt.unsafe_at(id))); for (auto nb : dt.unsafe_at(id).neighbors) if (nb != dSimplex<D, P>::cINF && !del.count(nb)) for (auto &x : dt.unsafe_at(nb).neighbors) if (x == id) x = dSimplex<D, P>::cINF; }
    for (auto id : del) dt.unsafe_at(id).id = dSimplex<D, P>::cINF;
}
template<uint D, typename P> static void cross_run(size_t maxpts) {
    some_log(); sim::set_limits(200000000, 400000000); dPoints<D, P> pts; dBox<D, P> box = make_points<D, P>(pts, (size_t) knob("points", D + 2, (int64_t) maxpts));
    DCTriangulator<D, P> dc(box, pts, 1u << knob("log-threads", 0, 3), Partitioner<D, P>::make((unsigned char) "ec"[knob("partitioner", 0, 1)]), 1, false, false); auto dt = dc.triangulate(); CGALTriangulator<D, P, false> cg(box, pts, 1); auto real = cg.triangulate();
    std::set<Vtx<D>> miss, extra; size_t nm = (size_t) knob_pick("removed", {0, 0, 1, 2, 5, 20}), ne = (size_t) knob_pick("removed-real", {0, 0, 1, 2, 5}); bool same_fp = true; auto f1 = dt.genFingerprint(), f2 = real.genFingerprint(); same_fp = f1 == f2;
    { NoPreempt np; if (!same_fp) sim::violation("fingerprint", "two triangulations of the same points have different fingerprints"); }
    remove_some<D, P>(dt, nm, miss); remove_some<D, P>(real, ne, extra);
    // neighbour links of the examined triangulation cut or redirected: no simplex is missing, but some lost a neighbour
    size_t relinked = nm + ne == 0 ? (size_t) knob_pick("relinked", {0, 0, 1, 2, 6}) : 0;
    if (relinked) { NoPreempt np; std::vector<tIdType> all; std::map<tIdType, std::set<tIdType>> was; for (const auto &s : dt) { all.push_back(s.id); was[s.id] = {s.neighbors.begin(), s.neighbors.end()}; was[s.id].erase(dSimplex<D, P>::cINF); }
      for (size_t i = 0; i < relinked; ++i) dt.unsafe_at(all[sim::wl.below(all.size())]).neighbors[sim::wl.below(D + 1)] = sim::wl.coin(0.5) ? dSimplex<D, P>::cINF : all[sim::wl.below(all.size())];
      relinked = 0; for (const auto &s : dt) for (auto n : was[s.id]) relinked += std::find(s.neighbors.begin(), s.neighbors.end(), n) == s.neighbors.end(); if (relinked) sim::probe("relinked-for-comparison"); }
    auto r = dt.crossCheck(real); NoPreempt np; std::set<Vtx<D>> m, x, wm, wx; for (auto &s : r.missing) if (!m.insert(vtx<D, P>(s)).second) sim::violation("report-twice", "a missing simplex is reported twice"); for (auto &s : r.invalid) if (!x.insert(vtx<D, P>(s)).second) sim::violation("report-twice", "a foreign simplex is reported twice");
    for (auto &v : miss) if (!extra.count(v)) wm.insert(v); for (auto &v : extra) if (!miss.count(v)) wx.insert(v);
    if (m != wm) { size_t un = 0; for (auto &v : wm) un += !m.count(v); sim::violation(un ? "report-incomplete" : "report-foreign", str("crossCheck reports %zu missing simplices, %zu are missing (%zu of them unreported)", m.size(), wm.size(), un)); }
    if (x != wx) { size_t un = 0; for (auto &v : wx) un += !x.count(v); sim::violation(un ? "report-incomplete" : "report-foreign", str("crossCheck reports %zu foreign simplices, there are %zu (%zu of them unreported)", x.size(), wx.size(), un)); }
    if (relinked && r.valid) sim::violation("wrong-verdict", str("crossCheck accepts a triangulation in which %zu neighbour links are cut or redirected", relinked)); bool same = wm.empty() && wx.empty() && miss.empty() && extra.empty() && !relinked; if (same && !r.valid) sim::violation("wrong-verdict", "crossCheck finds fault with two equal triangulations"); if ((!wm.empty() || !wx.empty()) && r.valid) sim::violation("wrong-verdict", "crossCheck accepts different triangulations");
}
SIM_SCENARIO(D06, cross2d, 3) { cross_run<2, double>(90); }
SIM_SCENARIO(D06, cross3d, 2) { cross_run<3, double>(40); }

// ------------------------------------------------------------------ D07 base solvers on subsets, parallel 3D solver
template<uint D, typename P, bool Par> static void base_run(size_t lo, size_t hi) {
    quiet_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(300000000, 600000000); dPoints<D, P> pts; dBox<D, P> box = make_points<D, P>(pts, (size_t) knob("points", (int64_t) lo, (int64_t) hi)); bool inf = knob_bool("infinite", 0.5), all = inf || knob_bool("subset", 0.6) == false;
    if (inf) { NoPreempt np; for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) for (uint d = 0; d < D; ++d) pts[k].coords[d] = (P) ((box.low[d] + box.high[d]) / 2 + ((k & (1u << d)) ? 200.0 : -200.0) * (box.high[d] - box.low[d])); }
    std::vector<tIdType> ids; { NoPreempt np; for (tIdType i = 1; i < pts.finite_size(); ++i) if (all || ids.size() < D + 2 || sim::wl.coin(0.7)) ids.push_back(i); if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) ids.push_back(k); }
    oracle::Simplices<D> ref; { NoPreempt np; std::vector<oracle::Pt<D>> v; for (auto id : ids) { std::array<double, D> a; for (uint d = 0; d < D; ++d) a[d] = pts[id].coords[d]; v.push_back({a, id}); } ref = oracle::delaunay<D>(v); }
    CGALTriangulator<D, P, Par> t(box, pts, (uint) knob_pick("grid-occupancy", {1, 2, 10, 100})); auto dt = static_cast<Triangulator<D, P> &>(t).triangulate(ids);
    if (inf) { judge<D, P>(dt, pts, &ref, true, Par ? "parallel base solver" : "base solver"); return; }
    judge<D, P>(dt, pts, &ref, false, Par ? "parallel base solver" : "base solver");
    NoPreempt np; std::map<std::array<uint64_t, D>, std::vector<tIdType>> faces; for (const auto &s : dt) for (uint d = 0; d < D + 1; ++d) { std::array<uint64_t, D> f; uint j = 0; for (uint i = 0; i < D + 1; ++i) if (i != d) f[j++] = s.vertices[i]; faces[f].push_back(s.id); }
    for (const auto &s : dt) for (uint d = 0; d < D + 1; ++d) { std::array<uint64_t, D> f; uint j = 0; for (uint i = 0; i < D + 1; ++i) if (i != d) f[j++] = s.vertices[i]; tIdType want = dSimplex<D, P>::cINF; for (auto x : faces[f]) if (x != s.id) want = x; if (s.neighbors[d] != want) sim::violation("wrong-neighbor", str("neighbour %u of simplex %llu is %lld, expected %lld", d, (unsigned long long) s.id, (long long) s.neighbors[d], (long long) want)); }
}
SIM_SCENARIO(D07, par3d, 4) { base_run<3, double, true>(5, 220); }
SIM_SCENARIO(D07, seq3d, 1) { base_run<3, double, false>(5, 120); }
SIM_SCENARIO(D07, seq2d, 1) { base_run<2, double, false>(4, 200); }

// ------------------------------------------------------------------ D08 point files under I/O faults and crashes
template<uint D, typename P> static bool same_points(const dPoints<D, P> &a, const dPoints<D, P> &b, bool inf) {
    NoPreempt np; if (a.finite_size() != b.finite_size() || a.offset() != b.offset()) return false; for (tIdType i = 1; i < a.finite_size(); ++i) for (uint d = 0; d < D; ++d) if (memcmp(&a[i].coords[d], &b[i].coords[d], sizeof(P))) return false;
    if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) for (uint d = 0; d < D; ++d) if (a[k].coords[d] != b[k].coords[d]) return false; return true;
}
template<uint D, typename P> static void store_run() {
    quiet_log(); dPoints<D, P> pts; make_points<D, P>(pts, (size_t) knob("points", 1, 1500)); place_inf<D, P>(pts); const std::string name = SIMFS "points"; if (knob_bool("old-file", 0.3)) sim::SimFs::put(name, std::string(60000, 'x'));
    auto &c = sim::io(); c.short_write = knob_bool("short-writes", 0.5) ? 0.5 : 0; c.eintr_write = knob_bool("interrupted-writes", 0.3) ? 0.3 : 0; bool bad = knob_bool("failing-writes", 0.4); if (bad) { c.enospc = 0.3; c.eio_write = 0.2; } c.open_fail = knob_bool("failing-open", 0.1) ? 0.5 : 0;
    bool threw = false; uint64_t before = sim::faults_fired("write-enospc") + sim::faults_fired("write-eio") + sim::faults_fired("open-fail");
    try { storeObject(pts, name); } catch (const std::exception &) { threw = true; }
    bool failed = sim::faults_fired("write-enospc") + sim::faults_fired("write-eio") + sim::faults_fired("open-fail") > before; c = sim::IoCfg();
    SIM_CHECK(!threw || failed, "spurious-error", "storing the points reports a failure that did not happen");
    bool crash = knob_bool("crash", 0.3); if (crash && !threw) { NoPreempt np; std::string b = sim::SimFs::get(name); size_t cut = sim::wl.below(b.size() + 1); crash = cut < b.size(); b.resize(cut); sim::SimFs::put(name, b); sim::probe("crash-truncated"); }
    c.short_read = knob_bool("short-reads", 0.5) ? 0.5 : 0; c.eintr_read = knob_bool("interrupted-reads", 0.3) ? 0.3 : 0; bool rbad = knob_bool("failing-reads", 0.3); if (rbad) c.eio_read = 0.3; before = sim::faults_fired("read-eio"); bool lthrew = false, same = false;
    try { auto l = loadObject<dPoints<D, P>>(name); same = same_points<D, P>(pts, l, true); } catch (const std::exception &) { lthrew = true; } bool rfailed = sim::faults_fired("read-eio") > before; c = sim::IoCfg();
    SIM_CHECK(lthrew || same || threw, "wrong-content", str("the stored file loads without complaint but with other points (crash %d, failed store %d, failed read %d)", crash, threw, rfailed));
    SIM_CHECK(!lthrew || crash || threw || rfailed, "lost-file", str("storing the points reported success, but the file cannot be loaded (a write failed: %d)", failed)); sim::note_state((uint64_t) (lthrew | same << 1 | threw << 2 | crash << 3 | rfailed << 4));
}
SIM_SCENARIO(D08, store2d, 1) { store_run<2, double>(); }
SIM_SCENARIO(D08, store3f, 1) { store_run<3, float>(); }
template<uint D, typename P> static void text_run() {
    quiet_log(); dPoints<D, P> src, pts; make_points<D, P>(src, (size_t) knob("points", 1, 800)); char sep = knob_bool("comma", 0.3) ? ',' : ' '; bool nl = knob_bool("final-newline", 0.8); const std::string name = SIMFS "points.txt"; size_t old = 0;
    { NoPreempt np; std::string t; for (tIdType i = 1; i < src.finite_size(); ++i) { for (uint d = 0; d < D; ++d) { if (d) t += sep; t += str("%.17g", (double) src[i].coords[d]); } if (nl || i + 1 < src.finite_size()) t += '\n'; } sim::SimFs::put(name, t); }
    if (knob_bool("append", 0.3)) { make_points<D, P>(pts, 5); old = 5; }
    auto &c = sim::io(); c.short_read = knob_bool("short-reads", 0.6) ? 0.6 : 0; c.eintr_read = knob_bool("interrupted-reads", 0.3) ? 0.3 : 0; if (knob_bool("failing-reads", 0.3)) c.eio_read = 0.3; uint64_t before = sim::faults_fired("read-eio"); bool threw = false; dBox<D, P> b;
    try { b = pts.loadFromFile(name, sep); } catch (const std::exception &) { threw = true; } bool failed = sim::faults_fired("read-eio") > before; c = sim::IoCfg(); NoPreempt np; sim::note_state((uint64_t) (threw | failed << 1));
    if (threw) { SIM_CHECK(failed, "spurious-error", "loading a readable file fails"); return; }
    SIM_CHECK(!failed || pts.finite_size() == old + src.finite_size(), "silent-truncation", str("a read error is not reported: %zu of %zu points are loaded", (size_t) (pts.finite_size() - 1 - old), (size_t) src.finite_size() - 1));
    SIM_CHECK(pts.finite_size() == old + src.finite_size(), "wrong-count", str("%zu of %zu points are loaded", (size_t) (pts.finite_size() - 1 - old), (size_t) src.finite_size() - 1));
    for (tIdType i = 1; i < src.finite_size(); ++i) for (uint d = 0; d < D; ++d) SIM_CHECK(pts[old + i].coords[d] == src[i].coords[d], "wrong-content", str("coordinate %u of point %llu is %.17g, the file says %.17g", d, (unsigned long long) i, (double) pts[old + i].coords[d], (double) src[i].coords[d]));
    for (uint d = 0; d < D; ++d) { P lo = src[1].coords[d], hi = lo; for (tIdType i = 1; i < src.finite_size(); ++i) { lo = std::min(lo, src[i].coords[d]); hi = std::max(hi, src[i].coords[d]); } SIM_CHECK(b.low[d] == lo && b.high[d] == hi, "wrong-bounds", str("bounds in dimension %u are %.17g..%.17g, the points span %.17g..%.17g", d, (double) b.low[d], (double) b.high[d], (double) lo, (double) hi)); }
}
SIM_SCENARIO(D08, text2d, 2) { text_run<2, double>(); }
SIM_SCENARIO(D08, text3f, 1) { text_run<3, float>(); }

// ------------------------------------------------------------------ D03 point location
template<uint D> static long double det(std::array<std::array<long double, D>, D> m) { long double r = 1; for (uint i = 0; i < D; ++i) { uint k = i; for (uint j = i + 1; j < D; ++j) if (std::abs(m[j][i]) > std::abs(m[k][i])) k = j; if (m[k][i] == 0) return 0; if (k != i) { std::swap(m[k], m[i]); r = -r; } r *= m[i][i]; for (uint j = i + 1; j < D; ++j) { long double f = m[j][i] / m[i][i]; for (uint c = i; c < D; ++c) m[j][c] -= f * m[i][c]; } } return r; }
// smallest barycentric coordinate of q in s: positive inside, negative outside
template<uint D, typename P, class S> static long double bary_min(const S &s, const std::array<long double, D> &q, const dPoints<D, P> &pts) {
    auto vol = [&](int rep) { std::array<std::array<long double, D>, D + 1> v; for (uint i = 0; i < D + 1; ++i) for (uint d = 0; d < D; ++d) v[i][d] = (int) i == rep ? q[d] : (long double) pts[s.vertices[i]].coords[d]; std::array<std::array<long double, D>, D> m; for (uint i = 0; i < D; ++i) for (uint d = 0; d < D; ++d) m[i][d] = v[i + 1][d] - v[0][d]; return det<D>(m); };
    long double t = vol(-1), r = 1; if (t == 0) return -1; for (uint i = 0; i < D + 1; ++i) r = std::min(r, vol((int) i) / t); return r;
}
template<uint D, typename P> static void locate_run(size_t hi) {
    quiet_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(300000000, 600000000); dPoints<D, P> pts; dBox<D, P> box = make_points<D, P>(pts, (size_t) knob("points", D + 2, (int64_t) hi)); static const char kinds[] = {'c', 'e', 'd'}; char part = kinds[knob("partitioner", 0, 2)]; uint depth = (uint) knob("depth", 1, part == 'd' ? 1 : 2), threads = 1u << (part == 'd' ? D * depth : depth);
    DCTriangulator<D, P> dc(box, pts, threads, Partitioner<D, P>::make((unsigned char) part), 1, false, knob_bool("parallel-edge", 0.5)); auto dt = dc.triangulate(); std::vector<tIdType> all; { NoPreempt np; for (const auto &s : dt) all.push_back(s.id); }
    int queries = (int) knob("queries", 1, 12); for (int k = 0; k < queries; ++k) { dPoint<D, P> p; std::array<long double, D> q; bool outside = false; tIdType hint = dSimplex<D, P>::cINF, best = hint; long double most = -1;
        { NoPreempt np; outside = sim::wl.coin(0.25); tIdType n = pts.finite_size() - 1; P w[D + 1], sum = 0; for (auto &x : w) sum += x = (P) (sim::wl.unit() + 0.01); for (uint d = 0; d < D; ++d) p.coords[d] = 0; for (auto &x : w) { auto &v = pts[1 + sim::wl.below(n)]; for (uint d = 0; d < D; ++d) p.coords[d] += x / sum * v.coords[d]; } if (outside) for (uint d = 0; d < D; ++d) p.coords[d] += (P) ((sim::wl.unit() - 0.5) * 6 * (box.high[d] - box.low[d]));
          for (uint d = 0; d < D; ++d) q[d] = p.coords[d]; if (sim::wl.coin(0.5)) hint = all[sim::wl.below(all.size())]; for (const auto &s : dt) { long double b = bary_min<D, P>(s, q, pts); if (b > most) { most = b; best = s.id; } } }
        auto got = dt.findNearestSimplex(p, pts, hint); NoPreempt np; if (!std::binary_search(all.begin(), all.end(), got)) sim::violation("location-unknown", str("point location answers simplex %lld, which does not exist", (long long) got));
        if (most > 1e-3L) { long double b = bary_min<D, P>(dt.unsafe_at(got), q, pts); if (b < -1e-6L) sim::violation("location-wrong", str("point location answers simplex %llu, the %s point is in simplex %llu (smallest barycentric coordinates %Lg and %Lg)", (unsigned long long) got, outside ? "outer" : "inner", (unsigned long long) best, b, most)); sim::probe(outside ? "located-outside" : "located-inside"); sim::note_state(sim::mix(got, outside)); } }
}
SIM_SCENARIO(D03, locate2d, 2) { locate_run<2, double>(160); }
SIM_SCENARIO(D03, locate3d, 2) { locate_run<3, double>(110); }

// ------------------------------------------------------------------ D10 stored triangulations
template<uint D, typename P> static void tri_store_run(size_t hi) {
    quiet_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(300000000, 600000000); dPoints<D, P> pts; dBox<D, P> box = make_points<D, P>(pts, (size_t) knob("points", D + 2, (int64_t) hi)); DCTriangulator<D, P> dc(box, pts, 1u << knob("log-threads", 1, 3), Partitioner<D, P>::make('c'), 1, false, knob_bool("parallel-edge", 0.5)); auto ref = reference<D, P>(pts); auto dt = dc.triangulate(); const std::string name = SIMFS "triangulation"; if (knob_bool("old-file", 0.3)) sim::SimFs::put(name, std::string(60000, 'x'));
    auto &c = sim::io(); c.short_write = knob_bool("short-writes", 0.5) ? 0.5 : 0; c.eintr_write = knob_bool("interrupted-writes", 0.3) ? 0.3 : 0; bool bad = knob_bool("failing-writes", 0.3); if (bad) { c.enospc = 0.3; c.eio_write = 0.2; } c.open_fail = knob_bool("failing-open", 0.1) ? 0.5 : 0;
    auto fired = [] { return sim::faults_fired("write-enospc") + sim::faults_fired("write-eio") + sim::faults_fired("open-fail") + sim::faults_fired("read-eio"); }; uint64_t before = fired(); bool threw = false, lthrew = false;
    try { storeObject(dt, name); } catch (const std::exception &) { threw = true; } bool failed = fired() > before; c = sim::IoCfg(); SIM_CHECK(!threw || failed, "spurious-error", "storing the triangulation reports a failure that did not happen");
    bool crash = knob_bool("crash", 0.3); if (crash && !threw) { NoPreempt np; std::string b = sim::SimFs::get(name); size_t cut = sim::wl.below(b.size() + 1); crash = cut < b.size(); b.resize(cut); sim::SimFs::put(name, b); sim::probe("crash-truncated"); }
    c.short_read = knob_bool("short-reads", 0.5) ? 0.5 : 0; c.eintr_read = knob_bool("interrupted-reads", 0.3) ? 0.3 : 0; if (knob_bool("failing-reads", 0.3)) c.eio_read = 0.3; before = fired(); std::optional<dSimplices<D, P>> l;
    try { l.emplace(loadObject<dSimplices<D, P>>(name)); } catch (const std::exception &) { lthrew = true; } bool rfailed = fired() > before; c = sim::IoCfg();
    SIM_CHECK(!lthrew || crash || threw || rfailed, "lost-file", str("storing the triangulation reported success, but the file cannot be loaded (a write failed: %d)", failed)); sim::note_state((uint64_t) (lthrew | threw << 1 | crash << 2 | rfailed << 3)); if (lthrew || threw) return;
    { NoPreempt np; std::map<tIdType, std::pair<std::vector<tIdType>, std::vector<tIdType>>> a, b; auto grab = [](auto &t, auto &m) { for (const auto &s : t) m[s.id] = {{s.vertices.begin(), s.vertices.end()}, {s.neighbors.begin(), s.neighbors.end()}}; }; grab(dt, a); grab(*l, b); Id_Vector ha = dt.convexHull, hb = l->convexHull; std::sort(ha.begin(), ha.end()); std::sort(hb.begin(), hb.end());
      SIM_CHECK(a == b && ha == hb, "wrong-content", str("the stored triangulation loads without complaint but with other content (%zu of %zu simplices, %zu of %zu on the hull, crash %d)", b.size(), a.size(), hb.size(), ha.size(), crash)); }
    judge<D, P>(*l, pts, &ref, true, "a loaded triangulation"); auto r = l->verify(pts); SIM_CHECK(r.valid, "verify", "a loaded triangulation is not valid"); auto x = l->crossCheck(dt); SIM_CHECK(x.valid, "verify", "a loaded triangulation differs from the stored one");
}
SIM_SCENARIO(D10, tristore2d, 2) { tri_store_run<2, double>(120); }
SIM_SCENARIO(D10, tristore3d, 1) { tri_store_run<3, double>(70); }

// ------------------------------------------------------------------ D09 allocation failure during triangulation
template<uint D, typename P> static void oom_run() {
    some_log(); sim::set_gap(2000, 400000, 100, 20000); sim::set_limits(300000000, 600000000); dPoints<D, P> pts; dBox<D, P> box = make_points<D, P>(pts, (size_t) knob("points", 41, 120));
    static const char kinds[] = {'c', 'e', 'd'}; char part = kinds[knob("partitioner", 0, 2)]; uint depth = (uint) knob("depth", 1, part == 'd' ? 1 : 2), threads = 1u << (part == 'd' ? D * depth : depth); bool pe = knob_bool("parallel-edge", 0.7);
    double rate = 1.0 / (double) knob_pick("fault-gap", {30, 300, 3000, 30000}); sim::fault_cap("alloc-fail", 1 + (int) knob("faults", 0, 2)); bool threw = false, ok = false;
    { DCTriangulator<D, P> dc(box, pts, threads, Partitioner<D, P>::make((unsigned char) part), 1, false, pe); auto ref = reference<D, P>(pts);
      sim::alloc_faults(rate); try { auto dt = dc.triangulate(); sim::alloc_faults(0); ok = true; judge<D, P>(dt, pts, &ref, true, "divide and conquer with failing allocations"); } catch (const std::bad_alloc &) { threw = true; } sim::alloc_faults(0);
      bool failed = sim::faults_fired("alloc-fail") > 0; SIM_CHECK(!threw || failed, "spurious-error", "std::bad_alloc although no allocation failed"); if (failed && ok) sim::probe("allocation-failure-absorbed"); if (threw) sim::probe("allocation-failure-surfaced");
      if (threw) { auto dt = dc.triangulate(); judge<D, P>(dt, pts, &ref, true, "the triangulation repeated after an allocation failure"); } }
}
SIM_SCENARIO(D09, oom2d, 3) { oom_run<2, double>(); }
SIM_SCENARIO(D09, oom3d, 2) { oom_run<3, double>(); }

// C16: the same runs, judged by what is left of their memory
static sim::Alias c16("C16", {"D01", "D03", "D04", "D06", "D07", "D10"}, sim::CHECK_LEAKS);
