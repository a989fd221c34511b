// D11: generated point sets, and the spatial sort they go through.
#include "lb.h"
#include "utils/Generator.h"
#include "SpatialSort.h"
#include <cstring>

using sim::str; using sim::knob; using sim::knob_pick; using sim::knob_bool; using sim::NoPreempt;

static const char *const DISTS[] = {"uniform", "normal", "ellipsoid", "skew-line", "bubble", "unbound-bubble", "patch-bubble", "malicious-bubble"};
template<uint D> static std::unique_ptr<PointGenerator<D, double>> gen_make(int dist, bool cli, double radius, uint bubbles) {
    static const char letters[] = {'u', 'n', 'e', 'l', 'b'};
    if (!cli && dist < 5) return GeneratorFactory<D, double>::make((unsigned char) letters[dist]);
    if (!cli) { if (dist == 5) return std::make_unique<LoadBalancing::UnboundBubbleGenerator<D, double>>(bubbles, radius); if (dist == 6) return std::make_unique<LoadBalancing::PatchBubbleGenerator<D, double>>(bubbles); return std::make_unique<LoadBalancing::MaliciousBubbleGenerator<D, double>>(bubbles); }
    NoPreempt np; boost::program_options::variables_map vm; auto put = [&](const char *k, boost::any v) { vm.insert(std::make_pair(std::string(k), boost::program_options::variable_value(v, false))); };
    put("distribution", std::string(DISTS[dist])); put("num-bubbles", (uint) bubbles); put("bubble-radius", (double) radius);
    return createGenerator<D, double>(vm);
}
template<uint D> static std::vector<std::array<double, D>> gen_coords(const dPoints<D, double> &p, size_t n, const char *what) {
    NoPreempt np; std::vector<std::array<double, D>> r;
    if (p.finite_size() != n + 1) sim::violation("generate-count", str("%s: %zu slots for %zu points and the unused slot 0", what, (size_t) p.finite_size(), n));
    for (size_t i = 1; i <= n; ++i) { std::array<double, D> c; for (uint d = 0; d < D; ++d) c[d] = p[i].coords[d]; r.push_back(c); }
    return r;
}
template<uint D> static void gen_run() {
    int dist = (int) knob("distribution", 0, 7); size_t n = (size_t) knob_pick("n", {0, 1, 2, 3, 4, 5, 7, 9, 16, 33, 100}), threads = (size_t) knob("threads", 1, 4); bool cli = knob_bool("command-line", 0.4), share = knob_bool("shared-generator", 0.6), faults = knob_bool("alloc-faults", 0.25); uint bubbles = (uint) knob_pick("bubbles", {2, 3, 4, 9, 16, 64});
    double scale = (double) knob_pick("scale", {1, 100, 10000}), off = (double) knob_pick("offset", {0, -1, 1, 1000}) * scale; dBox<D, double> box; double ext = 1e300, big = 0;
    for (uint d = 0; d < D; ++d) { double l = off + scale * (wlcoin(0.5) ? 0.0 : -0.75 * (d + 1)), h = l + scale * (1 + (double) wlbelow(40) / 10); box.low[d] = l; box.high[d] = h; ext = std::min(ext, h - l); big = std::max({big, std::fabs(l), std::fabs(h)}); }
    double radius = ext / (double) knob_pick("radius", {2, 3, 10, 100}), eps = 1e-13 * (big + ext); const char *name = DISTS[dist];
    std::vector<std::vector<std::array<double, D>>> ref(threads), got(threads);
    // alone first: complete, inside, distinct
    for (size_t t = 0; t < threads; ++t) {
        auto pg = gen_make<D>(dist, cli, radius, bubbles); tGenerator g((uint) (1986 + 17 * t)); auto p = pg->generate((tIdType) n, box, g); ref[t] = gen_coords<D>(p, n, name);
        NoPreempt np; std::set<std::array<double, D>> uniq;
        for (size_t i = 0; i < n; ++i) { for (uint d = 0; d < D; ++d) { double x = ref[t][i][d]; if (!(x >= box.low[d] - eps && x <= box.high[d] + eps)) sim::violation("generate-outside", str("%s: coordinate %u of point %zu of %zu is %g, outside [%g, %g]", name, d, i + 1, n, x, (double) box.low[d], (double) box.high[d])); }
            if (dist != 7 && !uniq.insert(ref[t][i]).second) sim::violation("generate-duplicate", str("%s: point %zu of %zu coincides with another one", name, i + 1, n)); }
    }
    // then all at once, generator objects shared or not, memory short or not
    std::unique_ptr<PointGenerator<D, double>> common = gen_make<D>(dist, cli, radius, bubbles);
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] {
        for (int tries = 0;; ++tries) {
            SIM_CHECK(tries < 100, "alloc-never-recovers", "generation keeps failing after memory became available");
            try { std::unique_ptr<PointGenerator<D, double>> own; if (!share) own = gen_make<D>(dist, cli, radius, bubbles); tGenerator g((uint) (1986 + 17 * t)); auto p = (share ? common : own)->generate((tIdType) n, box, g); got[t] = gen_coords<D>(p, n, name); break; } catch (std::bad_alloc &) { sim::probe("bad_alloc-surfaced"); }
        } });
    if (faults) { sim::fault_cap("alloc-fail", (int) knob("max-faults", 1, 3)); sim::alloc_faults((double) knob_pick("fault%", {5, 20, 50}) / 100.0); }
    sim::parallel(fs); if (faults) sim::alloc_faults(0);
    for (size_t t = 0; t < threads; ++t) SIM_CHECK(got[t] == ref[t], "generate-irreproducible", str("%s: the same random state gives other points when %zu threads generate at once%s", name, threads, share ? " with one generator object" : ""));
    NoPreempt np; sim::note_state(sim::mix((uint64_t) dist * 1000 + n, (uint64_t) threads));
}
SIM_SCENARIO(D11, generate2, 3) { gen_run<2>(); }
SIM_SCENARIO(D11, generate3, 2) { gen_run<3>(); }
template<uint D, class P> static void sort_run() {
    size_t n = (size_t) knob_pick("n", {0, 1, 2, 3, 5, 8, 17, 64, 300}), threads = (size_t) knob("threads", 1, 3); bool dup = knob_bool("coinciding", 0.3); std::vector<dPoints<D, P>> in(threads), out;
    { NoPreempt np; for (auto &p : in) { p.reserveUpToIdx(n + 1); for (size_t i = 0; i <= n; ++i) for (uint d = 0; d < D; ++d) p[i].coords[d] = i == 0 ? (P) 4711 : dup && i > 1 && sim::wl.coin(0.3) ? p[i - 1].coords[d] : (P) (sim::wl.below(2000) / 7.0 - 100); } }
    out = in; std::vector<std::function<void()>> fs; for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { CGALSpatialSorter<D, P> s; s.sort(out[t]); });
    sim::parallel(fs); NoPreempt np;
    for (size_t t = 0; t < threads; ++t) { auto all = [&](const dPoints<D, P> &p) { std::multiset<std::array<P, D>> r; for (size_t i = 1; i <= n; ++i) { std::array<P, D> c; for (uint d = 0; d < D; ++d) c[d] = p[i].coords[d]; r.insert(c); } return r; };
        if (out[t].finite_size() != n + 1 || all(out[t]) != all(in[t])) sim::violation("sort-permutation", str("spatial sorting of %zu points does not yield a permutation of them", n)); for (uint d = 0; d < D; ++d) if (out[t][0].coords[d] != (P) 4711) sim::violation("sort-sentinel", "spatial sorting moves the unused slot 0"); }
    sim::note_state(n * 10 + threads);
}
SIM_SCENARIO(D11, sort, 1) { switch ((int) knob("type", 0, 3)) { case 0: sort_run<2, double>(); break; case 1: sort_run<3, double>(); break; case 2: sort_run<2, float>(); break; default: sort_run<3, float>(); } }
