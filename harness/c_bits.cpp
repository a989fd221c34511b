// C04 bit sets, C06 (bit set and block ranges), C07 id allocator, C11 block arrays, C14 parallel_do.
#include "common.h"
typedef uint32_t tIdType;
#include "datastructures/Bit_Set.hxx"
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <sstream>
#include "datastructures/BlockedArray.hxx"
#include "datastructures/BlockedArray2.hxx"
#include "utils/IndexHandler.h"
#include "mods/parallel_do.h"
#include <tbb/parallel_for.h>
#include <list>

using sim::str; using sim::knob; using sim::knob_pick; using sim::knob_bool; using sim::NoPreempt;
enum { SET = 0, CLR = 1, HAS = 2 };
static const char *const ONAMES[] = {"set", "unset", "isSet"};

// ------------------------------------------------------------------ C04
struct BitModel { bool b = false; std::string key() const { return b ? "1" : "0"; } };
static bool bit_step(BitModel &m, const Op &o) { bool r = o.res != 0; if (r != m.b) return false; if (o.kind == SET) m.b = true; if (o.kind == CLR) m.b = false; return true; }

template<class B> static void judge_bits(const B &b, const std::set<uint> &want, const char *what, bool iterate = true) {
    SIM_CHECK(b.ones() == want.size() && b.size() == want.size(), "bits-count", str("%s: ones() is %zu, %zu bits are set", what, (size_t) b.ones(), want.size()));
    size_t len = b.upperBound() - b.lowerBound();
    SIM_CHECK(b.zeros() == len - want.size() && b.zero() == want.empty() && b.empty() == want.empty() && b.one() == (want.size() == len), "bits-summary", str("%s: zeros()/zero()/one() wrong", what));
    size_t lo = b.lowerBound() > 40 ? b.lowerBound() - 40 : 0, hi = b.upperBound() + 40;
    for (size_t i = lo; i < hi; ++i) { bool s = b.isSet((uint) i), w = want.count((uint) i) != 0; SIM_CHECK(s == w && b.contains((uint) i) == w && b.one(i) == w && b.zero(i) == !w && b.count((uint) i) == w, "bits-content", str("%s: bit %zu reads %d, expected %d", what, i, (int) s, (int) w)); }
    if (!iterate) return;
    std::multiset<uint> got; size_t n = 0; auto e = b.end(); for (auto i = b.begin(); i != e; ++i) { uint v = (uint) *i; NoPreempt np; got.insert(v); if (++n > len + 2) break; }
    NoPreempt np; if (got.size() != want.size() || !std::equal(got.begin(), got.end(), want.begin())) sim::violation("bits-iteration", str("%s: iteration yields %zu bits, %zu are set", what, got.size(), want.size()));
}
SIM_SCENARIO(C04, ops, 6) {
    size_t lo = (size_t) knob_pick("lower", {0, 0, 32, 70, 1000}), len = (size_t) knob_pick("length", {32, 33, 64, 200}); size_t threads = (size_t) knob("threads", 2, 4), ops = (size_t) knob("ops", 1, 8);
    Concurrent_Bit_Set b(lo, lo + len); size_t L = b.lowerBound(), U = b.upperBound();
    SIM_CHECK(L <= lo && U >= lo + len && U - L <= len + 64, "bits-bounds", "bounds do not enclose the requested interval");
    std::vector<uint> bits; { NoPreempt np; size_t n = (size_t) knob("universe", 1, 6); bool word = knob_bool("one-word", 0.6); size_t w = L + 32 * sim::wl.below((U - L) / 32); for (size_t i = 0; i < n; ++i) bits.push_back((uint) (word ? w + (sim::wl.coin(0.3) ? 31 : sim::wl.below(32)) : L + sim::wl.below(U - L))); }
    std::map<uint, BitModel> init; for (uint x : bits) if (wlcoin(0.3)) { b.testAndSet(x); NoPreempt np; init[x].b = true; }
    double pc = (double) knob("unset%", 0, 60) / 100; History H; std::vector<std::vector<std::pair<int, uint>>> plan(threads);
    { NoPreempt np; for (auto &p : plan) for (size_t i = 0; i < ops; ++i) { int k = sim::wl.coin(0.2) ? HAS : sim::wl.coin(pc) ? CLR : SET; p.push_back({k, bits[sim::wl.below(bits.size())]}); } }
    bool compat = knob_bool("set-interface", 0.3); std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (auto &o : plan[t]) { size_t i = H.invoke(o.first, o.second); bool r;
        if (o.first == SET) r = compat ? !b.insert(o.second) : b.testAndSet(o.second); else if (o.first == CLR) r = compat ? b.erase(o.second) : b.testAndUnset(o.second); else r = compat ? b.contains(o.second) : b.isSet(o.second);
        H.ret(i, r); } });
    sim::parallel(fs);
    std::set<uint> want;
    for (uint x : bits) {
        bool r = b.isSet(x); NoPreempt np; std::vector<Op> w; for (auto &o : H.ops) if (o.key == x) w.push_back(o);
        Op fin{}; fin.kind = HAS; fin.key = x; fin.inv = H.clock + 1; fin.ret = H.clock + 2; fin.res = r; w.push_back(fin); if (r) want.insert(x);
        if (!linearizable(w, init[x], bit_step)) sim::violation("bits-not-linearizable", str("bit %u, initially %d: ", x, (int) init[x].b) + show(w, ONAMES));
    }
    for (auto &o : H.ops) { NoPreempt np; sim::note_state((uint64_t) o.res); }
    judge_bits(b, want, "concurrent bit set"); int how = (int) knob("after", 0, 3);
    if (how == 1) { Bit_Set s(std::move(b)); judge_bits(s, want, "converted to sequential"); Concurrent_Bit_Set c(std::move(s)); judge_bits(c, want, "converted back"); }
    else if (how == 2) { Concurrent_Bit_Set c(std::move(b)); judge_bits(c, want, "moved"); }
    else if (how == 3) { Concurrent_Bit_Set c(0, 32); c.insert(5); c = std::move(b); judge_bits(c, want, "move-assigned"); }
}
// bulk operations of the sequential set, on sets filled concurrently
SIM_SCENARIO(C04, bulk, 3) {
    sim::set_gap(300, 20000, 30, 3000);
    struct Filled { std::set<uint> s; }; auto fill = [&](Concurrent_Bit_Set &c, Filled &w, double p) {
        std::vector<uint> k; { NoPreempt np; for (size_t i = c.lowerBound(); i < c.upperBound(); ++i) if (sim::wl.coin(p)) { k.push_back((uint) i); w.s.insert((uint) i); } }
        tbb::parallel_for(tbb::blocked_range<size_t>(0, k.size()), [&](const auto &r) { for (auto i = r.begin(); i != r.end(); ++i) { bool was = c.testAndSet(k[i]); SIM_CHECK(!was, "bits-not-linearizable", "a bit set for the first time was reported as already set"); } }); };
    auto lo = [&](const char *n) { return (size_t) knob_pick(n, {0, 0, 32, 64, 96, 320}); }; auto len = [&](const char *n) { return (size_t) knob_pick(n, {1, 32, 64, 100, 160}); };
    auto dens = [&](const char *n) { return (double) knob_pick(n, {0, 5, 50, 95, 100}) / 100; };
    Filled A, B, F; size_t la = lo("loA"), lb = lo("loB"), lf = lo("loF");
    Concurrent_Bit_Set ca(la, la + len("lenA")), cb(lb, lb + len("lenB")), cf(lf, lf + len("lenF")); fill(ca, A, dens("a%")); fill(cb, B, dens("b%")); fill(cf, F, dens("f%")); std::set<uint> W;
    size_t L = ca.lowerBound(), U = ca.upperBound();
    Bit_Set a(std::move(ca)); int kind = (int) knob("kind", 0, 7); bool conc = knob_bool("concurrent-operand", 0.5);
    auto operand = [&](auto f) { if (conc) f(cb); else { Bit_Set b(std::move(cb)); f(b); } };
    auto uni = [&](bool filt) { NoPreempt np; W = A.s; W.insert(B.s.begin(), B.s.end()); if (filt) for (uint x : F.s) W.erase(x); };
    if (kind == 0) { uni(false); Bit_Set b(std::move(cb)); a.merge(std::move(b)); judge_bits(a, W, "merge"); }
    else if (kind == 1) { uni(true); Bit_Set b(std::move(cb)); Bit_Set f(std::move(cf)); a.mergeFilter(std::move(b), f); judge_bits(a, W, "mergeFilter"); }
    else if (kind == 2) { { NoPreempt np; W = A.s; for (uint x : B.s) W.erase(x); } operand([&](auto &b) { a.filter(b); judge_bits(b, B.s, "filter operand"); }); judge_bits(a, W, "filter"); }
    else if (kind == 3) { W = B.s; operand([&](auto &b) { a.copy(b); judge_bits(b, B.s, "source of copy"); }); judge_bits(a, W, "copy"); }
    else if (kind == 4) { size_t nl = lo("newlow"), nu = nl + len("newlen"); W = A.s; if (knob_bool("upper-only", 0.4)) { nl = L; nu = U + len("newlen"); a.resize(nu); } else a.resize(nl, nu); SIM_CHECK(a.lowerBound() <= std::min(L, nl) && a.upperBound() >= std::max(U, nu), "bits-bounds", "resize() does not enclose the interval"); judge_bits(a, W, "resize"); }
    else if (kind == 5) { size_t from = L + wlbelow(U - L), to = from + 1 + wlbelow(U - from); { NoPreempt np; W = A.s; for (size_t i = from; i < to; ++i) W.insert((uint) i); } a.batchSet((uint) from, (uint) to); judge_bits(a, W, "batchSet"); sim::note_state(from * 1000 + to); }
    else if (kind == 7) { W = A.s; Bit_Set l(lb, lb + 40); if (wlcoin(0.5)) l.insert((uint) lb + 3); std::string data; { NoPreempt np; std::ostringstream os; { boost::archive::binary_oarchive ar(os); const Bit_Set &c = a; ar << c; } data = os.str(); std::istringstream is(data); boost::archive::binary_iarchive ar(is); ar >> l; } judge_bits(a, W, "stored bit set"); SIM_CHECK(l.lowerBound() == L && l.upperBound() == U, "bits-bounds", "a loaded bit set has other bounds"); judge_bits(l, W, "loaded bit set"); }
    else { W = A.s; for (size_t i = L; i < U; ++i) if (wlcoin(0.3)) { bool was = W.count((uint) i); if (wlcoin(0.5)) { bool r = a.testAndSet((uint) i); W.insert((uint) i); SIM_CHECK(r == was, "bits-content", "testAndSet"); } else { bool r = a.testAndUnset((uint) i); W.erase((uint) i); SIM_CHECK(r == was, "bits-content", "testAndUnset"); } } judge_bits(a, W, "sequential updates"); Bit_Set m(std::move(a)); judge_bits(m, W, "moved"); Bit_Set n2(64, 64 + 32 * wlbelow(4) + 32); n2.insert(70); n2 = std::move(m); judge_bits(n2, W, "move-assigned"); }
    sim::note_state(sim::mix(W.size(), (uint64_t) kind));
}
// ------------------------------------------------------------------ C15: a failing allocation reaches the caller
SIM_SCENARIO(C15, bits, 1) {
    int kind = (int) knob("kind", 0, 5); sim::fault_cap("alloc-fail", 1); double rate = (double) knob_pick("fault%", {50, 100}) / 100.0; bool threw = false, constructed = true; std::set<uint> A{3, 40, 63};
    Bit_Set a(0, 64), b(32, 128); for (uint x : A) { a.insert(x); } b.insert(100);
    sim::alloc_faults(rate);
    try {
        if (kind == 0) { constructed = false; Bit_Set n(0, 64); constructed = true; n.insert(7); SIM_CHECK(n.isSet(7), "bits-content", "fresh set"); }
        else if (kind == 1) { Concurrent_Bit_Set n(0, 64); n.insert(7); SIM_CHECK(n.isSet(7), "bits-content", "fresh set"); }
        else if (kind == 2) a.copy(b); else if (kind == 3) a.merge(std::move(b)); else if (kind == 4) a.resize(0, 256); else a.mergeFilter(std::move(b), Bit_Set(0, 32));
    } catch (std::bad_alloc &) { threw = true; sim::probe("bad_alloc-surfaced"); }
    sim::alloc_faults(0); bool fired = sim::faults_fired("alloc-fail") > 0; (void) constructed;
    SIM_CHECK(!fired || threw, "alloc-swallowed", "an allocation failed inside the operation, but no std::bad_alloc reached the caller"); SIM_CHECK(fired || !threw, "alloc-spurious", "std::bad_alloc without a failed allocation"); sim::note_state((uint64_t) threw * 8 + (uint64_t) kind);
}
// ------------------------------------------------------------------ C06
template<class Range, class Sink> static void split_walk(Range &r, const Sink &sink, int depth) {
    bool div = r.is_divisible(), empty = r.empty();
    if (div && !empty && depth < 40 && wlcoin(0.85)) { Range right(r, tbb::split()); if (wlcoin(0.5)) { split_walk(right, sink, depth + 1); split_walk(r, sink, depth + 1); } else { split_walk(r, sink, depth + 1); split_walk(right, sink, depth + 1); } return; }
    if (div && empty) { NoPreempt np; sim::violation("range-empty-divisible", "an empty range claims to be divisible"); }
    size_t guard = 0; for (auto i = r.begin(); i != r.end(); ++i) { sink(*i); if (++guard > 200000) { NoPreempt np; sim::violation("range-overrun", "iteration over a split range does not reach its end"); } }
}
template<class C, class Val> static void ranges(const C &c, const std::multiset<uint> &want, const Val &val, const char *what) {
    auto cmp = [&](const std::multiset<uint> &got, const char *how) { NoPreempt np; if (got != want) { std::string d; for (uint x : want) if (got.count(x) != want.count(x)) { d = str(", e.g. element %u visited %zu times", x, got.count(x)); break; } sim::violation("range-cover", str("%s, %s: %zu visits for %zu elements%s", what, how, got.size(), want.size(), d.c_str())); } };
    int mode = (int) knob("walk", 0, 2); std::multiset<uint> got;
    if (mode == 0) { auto r = c.range(); tbb::parallel_for(r, [&](const auto &q) { for (auto i = q.begin(); i != q.end(); ++i) { auto v = val(*i); NoPreempt np; got.insert(v); } }); cmp(got, "parallel_for over range()"); }
    else { typedef decltype(c.range()) R; size_t g = (size_t) knob_pick("grain", {1, 2, 3, 7, 50, 1000});
        R r = mode == 1 ? R(c, g) : c.range();
        if (mode == 1 && wlcoin(0.5)) tbb::parallel_for(r, [&](const auto &q) { for (auto i = q.begin(); i != q.end(); ++i) { auto v = val(*i); NoPreempt np; got.insert(v); } });
        else split_walk(r, [&](const auto &v) { auto x = val(v); NoPreempt np; got.insert(x); }, 0);
        cmp(got, mode == 1 ? "explicit grain size" : "recursive splitting of range()"); }
    sim::note_state(want.size());
}
struct Cell { uint id; uint mark; };
typedef BlockedArray2<Cell> BA2;
// disjoint blocks with gaps between them, in the shape the triangulator creates them
static BA2 make_ba2(std::vector<std::pair<uint, uint>> &blocks, size_t nb, uint maxlen, uint maxgap, std::multiset<uint> *ids) {
    { NoPreempt np; uint p = (uint) sim::wl.below(50); for (size_t i = 0; i < nb; ++i) { uint l = 1 + (uint) sim::wl.below(maxlen); blocks.push_back({p, p + l}); if (ids) for (uint x = p; x < p + l; ++x) ids->insert(x); p += l + (sim::wl.coin(0.5) ? 0 : (uint) sim::wl.below(maxgap + 1)); } }
    std::vector<size_t> order; { NoPreempt np; for (size_t i = 0; i < nb; ++i) order.push_back(i); for (size_t i = nb; i > 1; --i) std::swap(order[i - 1], order[sim::wl.below(i)]); }
    BA2 a(blocks[order[0]].first, blocks[order[0]].second);
    for (size_t i = 1; i < nb; ++i) { uint lo = blocks[order[i]].first, hi = blocks[order[i]].second; if (wlcoin(0.4)) { auto &b = a.addBlock(lo, hi); SIM_CHECK(b.min() == lo && b.max() == hi && b.size() == hi - lo, "blocks-bounds", "addBlock returns another block"); } else { BA2 o(lo, hi); while (i + 1 < nb && wlcoin(0.4)) { ++i; o.addBlock(blocks[order[i]].first, blocks[order[i]].second); } a.merge(std::move(o)); } }
    return a;
}
SIM_SCENARIO(C06, bits, 3) {
    sim::set_gap(300, 20000, 30, 3000); int kind = (int) knob("container", 0, 2);
    if (kind < 2) { size_t lo = (size_t) knob_pick("lower", {0, 32, 128, 2048}), len = (size_t) knob_pick("length", {32, 64, 500, 3000}); double p = (double) knob_pick("fill%", {0, 1, 10, 50, 100}) / 100; Concurrent_Bit_Set b(lo, lo + len); std::multiset<uint> want;
        for (size_t i = b.lowerBound(); i < b.upperBound(); ++i) if (wlcoin(p) || (i + 1 == b.upperBound() && wlcoin(0.3))) { b.insert((uint) i); NoPreempt np; want.insert((uint) i); }
        if (kind == 0) ranges(b, want, [](uint x) { return x; }, "Concurrent_Bit_Set"); else { Bit_Set s(std::move(b)); ranges(s, want, [](uint x) { return x; }, "Bit_Set"); } }
    else { std::vector<std::pair<uint, uint>> bl; std::multiset<uint> want; size_t nb = (size_t) knob("blocks", 1, 6); BA2 a = make_ba2(bl, nb, (uint) knob_pick("maxlen", {1, 4, 30, 400}), (uint) knob_pick("maxgap", {0, 3, 100}), &want); uint h = 0; for (uint x : want) a.at(x, h).id = x; 
        size_t n = 0; uint last = 0; bool ord = true; for (auto i = a.begin(); i != a.end(); ++i) { ord &= n == 0 || (*i).id > last; last = (*i).id; ++n; if (n > want.size()) break; } SIM_CHECK(ord && n == want.size(), "range-cover", str("iteration over the blocks visits %zu of %zu elements%s", n, want.size(), ord ? "" : ", out of order"));
        ranges(a, want, [](const Cell &c) { return c.id; }, "BlockedArray2"); }
}
// ------------------------------------------------------------------ C07
SIM_SCENARIO(C07, handler, 4) {
    tIdType first = (tIdType) knob_pick("first", {0, 1, 1000}); _detail::Concurrent_IndexHandler h(first); size_t threads = (size_t) knob("threads", 2, 4), ops = (size_t) knob("ops", 1, 12); double pr = (double) knob("release%", 0, 60) / 100; bool dis = knob_bool("disabled", 0.3);
    if (dis) h.disable(); std::set<uint> held, ever; std::vector<std::function<void()>> fs; size_t gets = 0; std::vector<std::vector<uint>> mine(threads);
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (size_t i = 0; i < ops; ++i) {
        if (!mine[t].empty() && wlcoin(pr)) { uint id; { NoPreempt np; size_t j = sim::wl.below(mine[t].size()); id = mine[t][j]; mine[t].erase(mine[t].begin() + (long) j); held.erase(id); } h.releaseId(id); }
        else { uint id = h.getId(); NoPreempt np; ++gets; if (!held.insert(id).second) sim::violation("id-twice", str("id %u handed out while it is held", id)); if (id < first) sim::violation("id-range", str("id %u below the first id", id)); if (dis && !ever.insert(id).second) sim::violation("id-reused", str("id %u reused although recycling is disabled", id)); ever.insert(id); mine[t].push_back(id); } } });
    sim::parallel(fs);
    for (uint id : ever) SIM_CHECK(id < h.maxId(), "id-range", str("id %u is not below maxId() %u", id, (uint) h.maxId()));
    SIM_CHECK(h.maxId() - first == ever.size(), "id-gap", str("maxId() %u, first id %u, but %zu different ids were handed out", (uint) h.maxId(), first, ever.size()));
    // at quiescence released ids are used before new ones
    if (!dis) { size_t fr = ever.size() - held.size(); for (size_t i = 0; i < fr; ++i) { uint id = h.getId(); SIM_CHECK(ever.count(id) && held.insert(id).second, "id-not-recycled", str("id %u is new or held although %zu released ids are available", id, fr - i)); } }
    sim::note_state(sim::mix(ever.size(), gets));
}
// ------------------------------------------------------------------ C11
SIM_SCENARIO(C11, growing, 4) {
    typedef Concurrent_BlockedArray<uint, 8> CA; size_t threads = (size_t) knob("threads", 2, 4), ops = (size_t) knob("ops", 1, 6), maxcap = (size_t) knob_pick("max", {8, 16, 40, 100}); CA a((size_t) knob_pick("initial", {1, 8, 17})); size_t cap0 = 0;
    { NoPreempt np; } std::vector<std::map<size_t, uint>> mine(threads); std::vector<std::function<void()>> fs; size_t top = 0; std::vector<std::pair<uint *, uint>> refs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { uint v = (uint) t * 1000 + 1; for (size_t i = 0; i < ops; ++i) {
        size_t c = 1 + wlbelow(maxcap); a.reserve(c); { NoPreempt np; top = std::max(top, c); }
        size_t slots = (c + threads - 1 - t) / threads; if (!slots) continue;                          // this thread's indices: congruent to t
        size_t idx = wlcoin(0.4) ? (slots - 1) * threads + t : wlbelow(slots) * threads + t; if (idx >= c) continue;
        uint *p; try { p = wlcoin(0.5) ? &a.at(idx) : &a[idx]; } catch (std::out_of_range &) { NoPreempt np; sim::violation("array-out-of-range", str("index %zu is refused although this thread had reserved %zu", idx, c)); }
        *p = ++v; { NoPreempt np; mine[t][idx] = v; } refs.push_back({p, 0});
        for (auto &q : mine[t]) { uint g = a.at(q.first); SIM_CHECK(g == q.second, "array-lost", str("element %zu holds %u, this thread wrote %u", q.first, g, q.second)); } } });
    for (auto &f : fs) (void) f; refs.reserve(threads * ops + 1);
    sim::parallel(fs); const CA &ca = a;
    for (auto &m : mine) for (auto &q : m) { uint g = ca.at(q.first), g2 = ca[q.first]; SIM_CHECK(g == q.second && g2 == q.second, "array-lost", str("element %zu holds %u, %u was written", q.first, g, q.second)); }
    // beyond the end at() throws; the end is at a block boundary at or after everything reserved
    size_t e = 0; for (size_t i = 0; i < 8 * (top + 400); ++i) { bool thrown = false; try { (void) ca.at(i); } catch (std::out_of_range &) { thrown = true; } if (thrown) { e = i; break; } }
    SIM_CHECK(e >= top, "array-out-of-range", str("at(%zu) throws although %zu elements were reserved", e, top)); SIM_CHECK(e % 8 == 0, "array-bounds", str("at() first throws at %zu, which is inside a block", e));
    CA m(std::move(a)); for (auto &x : mine) for (auto &q : x) { uint g = m.at(q.first); SIM_CHECK(g == q.second, "array-moved", "content lost by moving"); } sim::note_state(e); (void) cap0;
}
// lookups through per-task handles on a merged block array, as in the neighbour update
SIM_SCENARIO(C11, blocks, 4) {
    std::vector<std::pair<uint, uint>> bl; std::multiset<uint> ids; size_t nb = (size_t) knob("blocks", 1, 7); BA2 a0 = make_ba2(bl, nb, (uint) knob_pick("maxlen", {1, 5, 20}), (uint) knob_pick("maxgap", {0, 2, 30}), &ids); std::vector<uint> v(ids.begin(), ids.end()); bool mv = knob_bool("moved", 0.3); BA2 a1(1, 2); if (mv) { BA2 t(std::move(a0)); a1 = std::move(t); } BA2 &a = mv ? a1 : a0;
    SIM_CHECK(a.exact_size() == v.size() && a.lowerBound() == v.front() && a.upperBound() == v.back() + 1, "blocks-bounds", "size or bounds of the merged array are wrong"); size_t threads = (size_t) knob("threads", 1, 4), ops = (size_t) knob("ops", 1, 12);
    typedef BlockedArray2Handle<BA2> H; typedef BlockedArray2Handle<const BA2> CH;
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { H h(a); const BA2 &ca = a; CH ch(ca); for (size_t i = t; i < v.size(); i += threads) { h[v[i]].id = v[i] + 7; h.at(v[i]).mark = 1; }
        for (size_t i = 0; i < ops; ++i) { uint x = v[wlbelow(v.size())]; size_t j = 0; { NoPreempt np; j = (size_t) (std::lower_bound(v.begin(), v.end(), x) - v.begin()); } if (j % threads != t) { bool c = ch.contains(x); SIM_CHECK(c, "blocks-contains", str("contains(%u) is false", x)); continue; }
            uint g = wlcoin(0.5) ? h[x].id : ch.at(x).id; SIM_CHECK(g == x + 7, "blocks-element", str("element %u reads %u", x, g)); uint y = wlcoin(0.5) ? x + 1 + (uint) wlbelow(40) : (uint) wlbelow(v.back() + 60); bool want; { NoPreempt np; want = std::binary_search(v.begin(), v.end(), y); } bool c = wlcoin(0.5) ? h.contains(y) : ch.contains(y); SIM_CHECK(c == want, "blocks-contains", str("contains(%u) is %d", y, (int) c)); if (!want && wlcoin(0.3)) { bool thrown = false; try { (void) ch.at(y); } catch (std::out_of_range &) { thrown = true; } SIM_CHECK(thrown, "blocks-out-of-range", str("at(%u) outside every block does not throw", y)); } } });
    sim::parallel(fs); size_t n = 0; for (auto i = a.begin(); i != a.end() && n < v.size(); ++i, ++n) SIM_CHECK((*i).id == v[n] + 7 && (*i).mark == 1, "blocks-element", str("iteration position %zu reads %u instead of %u", n, (*i).id, v[n] + 7)); SIM_CHECK(n == v.size(), "blocks-iteration", "iteration ends early");
    {   // backwards, and iterators compared with each other
        auto e = a.end(), b = a.begin(), i = e; bool post = wlcoin(0.3); size_t k = v.size();
        while (k > 0) { if (post) i--; else --i; --k; uint got = (*i).id; SIM_CHECK(got == v[k] + 7, "blocks-backwards", str("walking backwards, position %zu reads %u instead of %u", k, got, v[k] + 7)); bool first = i == b, gt = b < i, le = i <= b, ge = i >= b; SIM_CHECK(first == (k == 0) && gt == (k != 0) && le == (k == 0) && ge && i != e && i < e && e > i, "blocks-compare", str("iterator at position %zu compares wrong with begin() or end()", k)); }
        for (size_t r = 0; r < 6; ++r) { size_t x = wlbelow(v.size()), y = wlbelow(v.size()); auto p = a.begin(), q = a.begin(); for (size_t j = 0; j < x; ++j) ++p; for (size_t j = 0; j < y; ++j) q++; bool ok = (p < q) == (x < y) && (p <= q) == (x <= y) && (p > q) == (x > y) && (p >= q) == (x >= y) && (p == q) == (x == y) && (p != q) == (x != y); SIM_CHECK(ok, "blocks-compare", str("iterators at positions %zu and %zu compare wrong", x, y)); }
    }
    for (uint x : v) SIM_CHECK(a.unsafe_contains(x) && a.unsafe_at(x).id == x + 7, "blocks-element", "unsafe access"); sim::note_state(v.size());
}
// ------------------------------------------------------------------ C14
template<class It> struct InputIt { typedef std::input_iterator_tag iterator_category; typedef typename std::iterator_traits<It>::value_type value_type; typedef std::ptrdiff_t difference_type; typedef const value_type *pointer; typedef const value_type &reference; It i; const value_type &operator*() const { return *i; } InputIt &operator++() { ++i; return *this; } bool operator==(const InputIt &o) const { return i == o.i; } bool operator!=(const InputIt &o) const { return i != o.i; } };
struct Wide { uint id; std::string tag; };
SIM_SCENARIO(C14, work, 4) {
    uint n = (uint) knob_pick("initial", {0, 1, 2, 3, 4, 5, 8, 9, 17, 40}), fan = (uint) knob("fanout", 0, 3), depth = (uint) knob("depth", 0, 3); int it = (int) knob("iterator", 0, 5); std::vector<uint> init; for (uint i = 0; i < n; ++i) init.push_back(i + 1);
    std::map<uint64_t, int> seen; uint64_t expect = 0; std::function<void(uint64_t, uint)> count = [&](uint64_t, uint d) { ++expect; if (d < depth) for (uint f = 0; f < fan; ++f) count(0, d + 1); }; { NoPreempt np; for (uint x : init) count(x, 0); }
    if (expect > 700) { depth = std::min(depth, 1u); expect = n * (depth ? 1 + fan : 1); }
    int inflight = 0; bool over = false; auto visit = [&](uint64_t x) { { NoPreempt np; if (over) sim::violation("parallel_do-late", "an item is processed after parallel_do returned"); ++inflight; if (++seen[x] > 1) sim::violation("parallel_do-twice", str("item %llu processed twice", (unsigned long long) x)); } sim::sync_point(); { NoPreempt np; --inflight; } };
    // item = initial + children encoded in base 8 above 20 bits
    auto level = [](uint64_t x) { uint d = 0; for (x >>= 10; x; x >>= 3) ++d; return d; }; auto child = [&](uint64_t x, uint f) { return x | ((uint64_t) (f + 1) << (10 + 3 * level(x))); };
    auto body = [&](const uint64_t x, tbb::parallel_do_feeder<uint64_t> &feed) { visit(x); if (level(x) < depth) for (uint f = 0; f < fan; ++f) feed.add(child(x, f)); };
    if (it == 0) { std::vector<uint64_t> v(init.begin(), init.end()); tbb::parallel_do(v.begin(), v.end(), body); }
    else if (it == 1) { std::list<uint64_t> v(init.begin(), init.end()); tbb::parallel_do(v.begin(), v.end(), body); }
    else if (it == 2) { std::vector<uint64_t> v(init.begin(), init.end()); typedef InputIt<std::vector<uint64_t>::iterator> I; tbb::parallel_do(I{v.begin()}, I{v.end()}, body); }
    else if (it == 3) { const std::vector<uint64_t> v(init.begin(), init.end()); tbb::parallel_do(v, body); }
    else if (it == 4) { std::vector<Wide> v; for (uint x : init) v.push_back({x, "a longer string that owns memory"}); tbb::parallel_do(v.begin(), v.end(), [&](const Wide &w, tbb::parallel_do_feeder<Wide> &feed) { SIM_CHECK(w.tag.size() > 5, "parallel_do-item", "item content lost"); visit(w.id); if (level(w.id) < depth) for (uint f = 0; f < fan; ++f) feed.add(Wide{(uint) child(w.id, f), w.tag}); }); }
    else { std::vector<Wide> v; for (uint x : init) v.push_back({x, "t"}); tbb::parallel_do(v, [&](Wide &w) { visit(w.id); w.tag = "done"; }); for (auto &w : v) SIM_CHECK(w.tag == "done", "parallel_do-item", "the body did not receive the item itself"); expect = n; }
    { NoPreempt np; over = true; if (inflight) sim::violation("parallel_do-early-return", "parallel_do returned while an item is being processed"); if (seen.size() != expect) sim::violation("parallel_do-missed", str("%zu of %llu items were processed", seen.size(), (unsigned long long) expect)); sim::note_state(expect); }
}

// C16: the same runs, judged by what is left of their memory
static sim::Alias c16("C16", {"C04", "C07", "C11", "C14", "C15"}, sim::CHECK_LEAKS);
