// Points, reference triangulation and judgement shared by the geometry harnesses.
#pragma once
#include "common.h"
#include "oracle.h"
#include "Geometry.h"
#include "utils/Logger.h"
inline void quiet_log() { LOGGER.setLogLevel(Logger::Verbosity::SILENT); }
// some runs keep a log as the programs do by default; its text is not judged, the run must not suffer from it
inline void some_log() { static const Logger::Verbosity v[] = {Logger::Verbosity::SILENT, Logger::Verbosity::NORMAL, Logger::Verbosity::VERBOSE, Logger::Verbosity::PROLIX}; int l = (int) sim::knob_pick("log-level", {0, 0, 0, 1, 2, 3}); LOGGER.setLogLevel(v[sim::leaks_checked() ? 0 : l]); }   // the log is kept until the end of the program

// points in general position (random mantissas), in differently shaped and placed clouds; ids 1..n
template<uint D, typename P> dBox<D, P> make_points(dPoints<D, P> &pts, size_t n, int maxstyle = 6) {
    int style = (int) sim::knob("cloud", 0, maxstyle); double scale = (double) sim::knob_pick("scale", {1, 1, 100, 10000}), off = 0; bool twins = sim::knob_bool("twins", 0.25);   // ids 4 and 64, which the simplex hash cannot tell apart, belong to close points
    std::vector<std::array<P, D>> c; std::set<std::array<P, D>> seen;
    { sim::NoPreempt np; auto &r = sim::wl; auto normal = [&] { double a = 0; for (int i = 0; i < 12; ++i) a += r.unit(); return a - 6; };
      std::vector<std::array<double, D>> cen(1 + r.below(4)); for (auto &x : cen) for (auto &y : x) y = r.unit();
      if (style == 4) off = -3 * scale; if (style == 5) off = (sim::wl.coin(0.5) ? 20 : -1000) * scale;
      while (c.size() < n) { std::array<P, D> p; auto &ct = cen[r.below(cen.size())];
        for (uint d = 0; d < D; ++d) { double v; switch (style) {
            case 1: v = normal(); break;
            case 2: v = ct[d] + 0.01 * normal(); break;
            case 3: v = r.unit() * (d == 0 ? 1 : d == 1 ? 0.02 : 0.3); break;
            case 6: v = d == 0 ? r.unit() : r.unit() * r.unit() * r.unit(); break;
            default: v = r.unit(); }
            p[d] = (P) (v * scale + off); }
        if (seen.insert(p).second) c.push_back(p); } 
      if (twins && n >= 64) for (int t = 0; t < 20; ++t) { std::array<P, D> p = c[3]; for (uint d = 0; d < D; ++d) p[d] += (P) (scale * 1e-3 * (r.unit() - 0.5)); if (seen.insert(p).second) { c[63] = p; break; } } }
    dBox<D, P> b; for (uint d = 0; d < D; ++d) { b.low[d] = c.empty() ? 0 : c[0][d]; b.high[d] = b.low[d]; }
    for (auto &x : c) { dPoint<D, P> p; for (uint d = 0; d < D; ++d) { p.coords[d] = x[d]; b.low[d] = std::min(b.low[d], x[d]); b.high[d] = std::max(b.high[d], x[d]); } pts.emplace_back(p); }
    return b;
}
// reference over all finite points and, once the triangulator has placed them, the points at infinity
template<uint D, typename P> std::vector<oracle::Pt<D>> oracle_points(const dPoints<D, P> &pts, bool inf = true) {
    sim::NoPreempt np; std::vector<oracle::Pt<D>> v; auto add = [&](tIdType id) { std::array<double, D> a; for (uint d = 0; d < D; ++d) a[d] = pts[id].coords[d]; v.push_back({a, id}); };
    for (tIdType i = 1; i < pts.finite_size(); ++i) add(i);
    if (inf) for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) add(k);
    return v;
}
template<uint D, typename P> oracle::Simplices<D> reference(const dPoints<D, P> &pts, bool inf = true) { sim::NoPreempt np; return oracle::delaunay<D>(oracle_points<D, P>(pts, inf)); }

template<uint D> std::string show_simplex(const std::array<uint64_t, D + 1> &a) { std::string s = "("; for (auto x : a) s += (s.size() > 1 ? "," : "") + (x > (~0ull >> 1) ? "inf" + std::to_string(~(~0ull ^ ((1 << D) - 1)) & x) : std::to_string(x)); return s + ")"; }

// dt against the reference (vertices) and, if wanted, its neighbour links, ids, hull and counts
template<uint D, typename P, class DT> void judge(const DT &dt, const dPoints<D, P> &pts, const oracle::Simplices<D> *ref, bool structure, const char *what) {
    typedef std::array<uint64_t, D + 1> V; std::map<V, tIdType> mine; std::map<tIdType, V> byid; size_t visited = 0; std::string dup; sim::NoPreempt np;
    for (const auto &s : dt) { V v; for (uint i = 0; i < D + 1; ++i) v[i] = s.vertices[i]; ++visited;
        if (!std::is_sorted(v.begin(), v.end())) sim::violation("vertex-order", sim::str("%s: the vertices of simplex %llu are not in ascending order", what, (unsigned long long) s.id));
        if (!mine.emplace(v, s.id).second) dup = show_simplex<D>(v); if (!byid.emplace(s.id, v).second) sim::violation("duplicate-id", sim::str("%s: two simplices have id %llu", what, (unsigned long long) s.id)); }
    if (!dup.empty()) sim::violation("duplicate-simplex", sim::str("%s: simplex %s occurs twice", what, dup.c_str()));
    if (ref) { size_t miss = 0, extra = 0; std::string m, e; for (auto &r : *ref) if (!mine.count(r)) { if (!miss++) m = show_simplex<D>(r); } for (auto &x : mine) if (!std::binary_search(ref->begin(), ref->end(), x.first)) { if (!extra++) e = show_simplex<D>(x.first); }
        if (miss || extra) sim::violation("not-delaunay", sim::str("%s of %zu points: %zu simplices of the Delaunay triangulation missing (first %s), %zu foreign (first %s), %zu in total", what, (size_t) pts.finite_size() - 1, miss, m.c_str(), extra, e.c_str(), ref->size())); }
    if (!structure) return;
    // faces
    std::map<std::array<uint64_t, D>, std::vector<tIdType>> faces; auto face = [](const V &v, uint d) { std::array<uint64_t, D> f; uint j = 0; for (uint i = 0; i < D + 1; ++i) if (i != d) f[j++] = v[i]; return f; };
    for (auto &x : mine) for (uint d = 0; d < D + 1; ++d) faces[face(x.first, d)].push_back(x.second);
    for (const auto &s : dt) { const V &v = byid[s.id];
        for (uint d = 0; d < D + 1; ++d) { auto &f = faces[face(v, d)]; tIdType want = ~0ull; if (f.size() > 2) sim::violation("face-shared-by-three", sim::str("%s: a face of %s belongs to %zu simplices", what, show_simplex<D>(v).c_str(), f.size())); for (tIdType x : f) if (x != s.id) want = x;
            if (s.neighbors[d] != want) sim::violation("wrong-neighbor", sim::str("%s: neighbour %u of simplex %s (id %llu) is %lld (%s), expected %lld", what, d, show_simplex<D>(v).c_str(), (unsigned long long) s.id, (long long) s.neighbors[d], byid.count(s.neighbors[d]) ? show_simplex<D>(byid[s.neighbors[d]]).c_str() : "no simplex", (long long) want)); }
        uint hint = 0; if (!dt.unsafe_contains(s.id) || !dt.contains(s.id, hint) || dt.unsafe_at(s.id).id != s.id) sim::violation("id-lookup", sim::str("%s: simplex %llu is not found under its id", what, (unsigned long long) s.id)); }
    if (dt.exact_size() != visited) sim::violation("exact-size", sim::str("%s: exact_size() is %zu, %zu simplices are visited", what, (size_t) dt.exact_size(), visited));
    std::multiset<tIdType> hull(dt.convexHull.begin(), dt.convexHull.end()), want; for (auto &x : mine) { bool inf = false; for (auto y : x.first) inf |= !dPoint<D, P>::isFinite(y); if (inf) want.insert(x.second); }
    if (hull != want) { size_t extra = 0, miss = 0; for (auto x : hull) extra += !want.count(x) || hull.count(x) > 1; for (auto x : want) miss += !hull.count(x); sim::violation("convex-hull", sim::str("%s: the convex hull lists %zu simplices, %zu are infinite (%zu missing, %zu foreign or repeated)", what, hull.size(), want.size(), miss, extra)); }
}

// the points at infinity surround the data with a margin in every orthant
template<uint D, typename P> void judge_infinite(const dPoints<D, P> &pts, const dBox<D, P> &b, const char *what) {
    sim::NoPreempt np; for (tIdType k = dPoint<D, P>::cINF; k != 0; ++k) for (uint d = 0; d < D; ++d) { double e = (double) b.high[d] - (double) b.low[d], c = pts[k].coords[d]; bool up = k & (1u << d);
        if (up ? !(c > b.high[d] + 10 * e) : !(c < b.low[d] - 10 * e)) sim::violation("infinite-points", sim::str("%s: coordinate %u of the point at infinity %u is %g, the data lies in %g..%g", what, d, (uint) (k & ((1 << D) - 1)), c, (double) b.low[d], (double) b.high[d])); }
}
