// C01-C03, C05, C06, C15: the concurrent hash containers.
#include "common.h"
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <sstream>
#include "datastructures/LP_Set.hxx"
#include "datastructures/LP_Map.hxx"
#include "datastructures/LP_MultiMap.hxx"
#include "datastructures/Growing_LP.hxx"
#include <tbb/parallel_for.h>
#include <thread>

using sim::str; using sim::knob; using sim::knob_pick; using sim::knob_bool; using sim::NoPreempt;

typedef Concurrent_LP_Set<uint, true> GSet;
typedef GrowingHashTable<GSet> GTab;
typedef GrowingHashTableHandle<GSet> GHnd;
typedef ConstGrowingHashTableHandle<GSet> CGHnd;

enum { INS = 0, HAS = 1, SIZE = 2, GET = 3 };
static const char *const ONAMES[] = {"insert", "contains", "size", "get"};

// ------------------------------------------------------------------ C01
// A grow-only set: per-key conditions that are exactly linearizability.
static void judge_set_history(const std::vector<Op> &ops, const std::set<uint> &before) {
    NoPreempt np;
    std::map<uint64_t, std::vector<const Op *>> by;
    for (auto &o : ops) if (o.kind != SIZE) by[o.key].push_back(&o);
    for (auto &p : by) {
        bool pre = before.count((uint) p.first) != 0;
        const Op *win = nullptr; uint64_t firstInv = ~0ull, firstRet = ~0ull, earliestSeen = ~0ull;
        for (auto *o : p.second) if (o->kind == INS) {
            firstInv = std::min(firstInv, o->inv); firstRet = std::min(firstRet, o->ret);
            if (o->res == 1) { if (win || pre) sim::violation("insert-twice-new", str("two insertions of key %llu both reported a new element; ", (unsigned long long) p.first) + show(ops, ONAMES)); win = o; }
        }
        if (!win && !pre && firstInv != ~0ull) sim::violation("insert-none-new", str("key %llu was inserted, but no insertion reported a new element; ", (unsigned long long) p.first) + show(ops, ONAMES));
        for (auto *o : p.second) {
            if (o->kind == INS && o->res == 0 && !pre && o->ret < win->inv) sim::violation("insert-not-new-too-early", str("insertion of key %llu reported an existing element before anybody had inserted it; ", (unsigned long long) p.first) + show(ops, ONAMES));
            if (o->kind == HAS && o->res && !pre && o->ret < firstInv) sim::violation("contains-phantom", str("contains(%llu) is true before any insertion; ", (unsigned long long) p.first) + show(ops, ONAMES));
            if ((o->kind == HAS && o->res) || (o->kind == INS)) earliestSeen = std::min(earliestSeen, o->ret);
        }
        for (auto *o : p.second) if (o->kind == HAS && !o->res && (pre || o->inv > earliestSeen))
            sim::violation("contains-lost", str("contains(%llu) is false after the element was inserted or seen; ", (unsigned long long) p.first) + show(ops, ONAMES));
    }
    for (auto &o : ops) if (o.kind == SIZE) {
        std::set<uint64_t> must(before.begin(), before.end()), may = must;
        for (auto &x : ops) if (x.kind == INS) { if (x.ret < o.inv && x.res == 1) must.insert(x.key); if (x.inv < o.ret) may.insert(x.key); }
        if ((uint64_t) o.res > may.size()) sim::violation("size-too-large", str("size() returned %lld with at most %zu elements; ", (long long) o.res, may.size()) + show(ops, ONAMES));
        if ((uint64_t) o.res < must.size()) sim::violation("size-too-small", str("size() returned %lld with at least %zu elements; ", (long long) o.res, must.size()) + show(ops, ONAMES));
    }
}
template<class T> static void judge_set_content(const T &t, const std::set<uint> &want, const std::vector<uint> &absent, const char *what) {
    SIM_CHECK(t.size() == want.size(), "set-size", str("%s: size() is %zu, %zu distinct elements were inserted", what, (size_t) t.size(), want.size()));
    SIM_CHECK(t.empty() == want.empty(), "set-empty", str("%s: empty() is wrong", what));
    SIM_CHECK(t.capacity() >= want.size(), "set-capacity", str("%s: capacity() %zu below the %zu elements held", what, (size_t) t.capacity(), want.size()));
    for (uint k : want) { bool c = t.contains(k); SIM_CHECK(c && t.count(k) == 1, "set-missing", str("%s: inserted element %u is missing", what, k)); }
    for (uint k : absent) { bool c = t.contains(k); SIM_CHECK(!c && t.count(k) == 0, "set-phantom", str("%s: contains(%u) although never inserted", what, k)); }
    std::multiset<uint> got; auto e = t.end();
    for (auto i = t.begin(); i != e; ++i) { uint v = *i; NoPreempt np; got.insert(v); if (got.size() > 4 * want.size() + 16) break; }
    NoPreempt np;
    if (got.size() != want.size() || !std::equal(got.begin(), got.end(), want.begin()))
        sim::violation("set-iteration", str("%s: iteration yields %zu elements, expected exactly the %zu inserted ones", what, got.size(), want.size()));
    std::multiset<uint> got2;
    for (size_t i = 0; i < t.capacity(); ++i) if (!t.empty(i)) got2.insert(t.at(i));
    if (got2 != got) sim::violation("set-index-access", str("%s: at()/empty() disagree with iteration", what));
}

static void growset_run(int style, size_t cap, size_t prefill, size_t threads, size_t opsPer, bool fresh, bool reader) {
    std::vector<uint> keys, all; std::set<uint> before, want;
    { NoPreempt np; size_t uni = (size_t) knob("universe", 1, (int64_t) (threads * opsPer) + 4); all = make_keys(prefill + uni + 3, style); }
    GTab tab(cap, 0u);
    {
        GHnd h(tab);
        for (size_t i = 0; i < prefill; ++i) { h.insert(all[i]); NoPreempt np; before.insert(all[i]); }
    }
    { NoPreempt np; keys.assign(all.begin() + (long) prefill, all.end() - 3); want = before; }
    std::vector<uint> absent(all.end() - 3, all.end());
    History H; double pc = (double) knob("contains%", 0, 60) / 100.0; bool sz = knob_bool("size", 0.3);
    std::vector<std::vector<std::pair<int, uint>>> plan(threads);
    { NoPreempt np; for (auto &p : plan) for (size_t i = 0; i < opsPer; ++i) {
        int k = sim::wl.coin(pc) ? HAS : sz && sim::wl.coin(0.15) ? SIZE : INS;
        uint key = k == HAS && sim::wl.coin(0.2) ? (sim::wl.coin(0.5) && prefill ? all[sim::wl.below(prefill)] : absent[sim::wl.below(3)]) : keys[sim::wl.below(keys.size())];
        p.push_back({k, key}); if (k == INS) want.insert(key); } }
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] {
        auto run = [&](auto &h, auto &rd, const std::pair<int, uint> &o) {
            size_t i = H.invoke(o.first, o.second);
            if (o.first == INS) { InsertReturn r = h.insert(o.second); SIM_CHECK(!(r == InsertReturn::State::Full), "insert-full", "a growing table reported Full to its user"); H.ret(i, (bool) r); }
            else if (o.first == HAS) H.ret(i, rd.contains(o.second) ? 1 : 0);
            else H.ret(i, (int64_t) rd.size());
        };
        const GTab &ct = tab;
        if (fresh) for (auto &o : plan[t]) { GHnd h(tab); if (reader) { CGHnd c(ct); run(h, c, o); } else run(h, h, o); }
        else { GHnd h(tab); if (reader) { CGHnd c(ct); for (auto &o : plan[t]) run(h, c, o); } else for (auto &o : plan[t]) run(h, h, o); }
    });
    sim::parallel(fs);
    judge_set_history(H.ops, before);
    { GHnd h(tab); judge_set_content(h, want, absent, "handle"); if (h.capacity() > nextPow2(cap)) sim::probe("grew"); if (h.capacity() > 4 * nextPow2(cap)) sim::probe("grew-repeatedly"); NoPreempt np; sim::note_state(sim::mix(h.capacity(), digest(want.begin(), want.end()))); for (auto &o : H.ops) sim::note_state((uint64_t) o.res); }
    { const GTab &ct = tab; CGHnd h(ct); judge_set_content(h, want, absent, "const handle"); }
    if (wlcoin(0.5)) { LP_Set<uint> s(std::move(tab.data())); judge_set_content(s, want, absent, "converted sequential set"); }
    else if (wlcoin(0.5)) { GTab t2(std::move(tab)); GHnd h(t2); judge_set_content(h, want, absent, "moved table"); uint k = absent[0]; bool n = h.insert(k); SIM_CHECK(n && h.contains(k), "set-moved", "the moved-to table does not accept a new element"); }
}
SIM_SCENARIO(C01, small, 6) {
    growset_run((int) knob_pick("keys", {0, 1, 1, 2, 3}), (size_t) knob_pick("capacity", {0, 1, 2, 4, 8, 16}), (size_t) knob("prefill", 0, 3), (size_t) knob("threads", 2, 4), (size_t) knob("ops", 1, 9), knob_bool("fresh-handles", 0.3), knob_bool("const-readers", 0.4));
}
// several migration blocks, helpers and laggards
SIM_SCENARIO(C01, blocks, 2) {
    sim::set_gap(30, 3000, 3, 600);
    size_t cap = (size_t) knob_pick("capacity", {512, 1024, 2048});
    growset_run((int) knob_pick("keys", {0, 2}), cap, cap / 2 - (size_t) knob("below-threshold", 1, 6), (size_t) knob("threads", 2, 5), (size_t) knob("ops", 2, 10), knob_bool("fresh-handles", 0.2), knob_bool("const-readers", 0.4));
}
// the way the triangulator fills it: one handle per task of a parallel_for
SIM_SCENARIO(C01, tasks, 2) {
    size_t n = (size_t) knob("keys#", 1, 120), cap = (size_t) knob_pick("capacity", {1, 4, 32}); std::vector<uint> k = make_keys(n + 2, (int) knob_pick("keys", {0, 1, 2}));
    std::vector<uint> absent(k.end() - 2, k.end()); k.resize(n); std::set<uint> want; { NoPreempt np; want.insert(k.begin(), k.end()); }
    GTab tab(cap, 0u); std::vector<int> news(n, 0); size_t dup = (size_t) knob("passes", 1, 2);
    tbb::parallel_for(tbb::blocked_range<size_t>(0, n * dup), [&](const auto &r) {
        GHnd h(tab); for (auto i = r.begin(); i != r.end(); ++i) { bool b = h.insert(k[i % n]); NoPreempt np; news[i % n] += b; }
    });
    for (size_t i = 0; i < n; ++i) SIM_CHECK(news[i] == 1, news[i] ? "insert-twice-new" : "insert-none-new", str("key %u reported as new %d times", k[i], news[i]));
    GHnd h(tab); judge_set_content(h, want, absent, "handle"); sim::note_state(h.capacity());
}

// ------------------------------------------------------------------ C02
typedef Concurrent_LP_MultiMap<uint, uint> MMap;
typedef GrowingHashTable<MMap> MTab;
typedef GrowingHashTableHandle<MMap> MHnd;
template<class T> static std::multiset<uint> mm_get(const T &t, uint k, size_t bound) {
    std::multiset<uint> r; auto p = t.get(k); size_t steps = 0;
    for (auto i = p.first; i != p.second; ++i) {
        auto kv = *i; NoPreempt np;
        if (kv.first != k) sim::violation("multimap-wrong-key", str("get(%u) yields an entry of key %u", k, kv.first));
        r.insert(kv.second);
        if (++steps > bound) sim::violation("multimap-get-unbounded", str("get(%u) yields more than %zu entries", k, bound));
    }
    return r;
}
static std::string showset(const std::multiset<uint> &s) { std::string r = "{"; for (uint x : s) { r += str("%u,", x); if (r.size() > 300) break; } return r + "}"; }
template<class T> static void judge_mm(const T &t, const std::map<uint, std::multiset<uint>> &want, const std::vector<uint> &absent, const char *what) {
    size_t n = 0; for (auto &p : want) n += p.second.size();
    SIM_CHECK(t.size() == n, "multimap-size", str("%s: size() is %zu, %zu entries were inserted", what, (size_t) t.size(), n));
    for (auto &p : want) {
        auto g = mm_get(t, p.first, n + 4); bool c = t.contains(p.first); NoPreempt np;
        if (g != p.second) sim::violation("multimap-content", str("%s: get(%u) yields %s, inserted were %s", what, p.first, showset(g).c_str(), showset(p.second).c_str()));
        if (!c) sim::violation("multimap-missing", str("%s: contains(%u) is false", what, p.first));
    }
    for (uint k : absent) { auto g = mm_get(t, k, n + 4); bool c = t.contains(k); SIM_CHECK(g.empty() && !c, "multimap-phantom", str("%s: key %u was never inserted", what, k)); }
    std::map<uint, std::multiset<uint>> got; size_t m = 0; auto e = t.end();
    for (auto i = t.begin(); i != e; ++i) { auto kv = *i; NoPreempt np; got[kv.first].insert(kv.second); if (++m > 2 * n + 8) break; }
    SIM_CHECK(got == want, "multimap-iteration", str("%s: iteration yields %zu entries, not exactly the %zu inserted ones", what, m, n));
}
static void mm_run(size_t cap, size_t prefill, size_t threads, size_t opsPer, int style, size_t universe, bool readOwn) {
    std::vector<uint> all = make_keys(prefill + universe + 2, style), absent(all.end() - 2, all.end());
    std::map<uint, std::multiset<uint>> want; MTab tab(cap, 0u); uint nextv = 1;
    { MHnd h(tab); for (size_t i = 0; i < prefill; ++i) { uint v = nextv++; h.insert(all[i], v); NoPreempt np; want[all[i]].insert(v); } }
    std::vector<std::vector<std::pair<uint, uint>>> plan(threads);
    { NoPreempt np; for (size_t t = 0; t < threads; ++t) for (size_t i = 0; i < opsPer; ++i) {
        size_t u = sim::wl.below(universe); if (readOwn) u = (u / threads * threads + t) % universe;     // disjoint keys
        uint k = all[prefill + u]; if (readOwn && universe < threads) k = all[prefill + t % universe];
        uint v = nextv++; plan[t].push_back({k, v}); want[k].insert(v); } }
    bool disjoint = readOwn && universe % threads == 0 && universe >= threads; bool fresh = knob_bool("fresh-handles", 0.3), pairs = knob_bool("insert-pair", 0.3);
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] {
        std::map<uint, std::multiset<uint>> own;
        auto one = [&](MHnd &h, const std::pair<uint, uint> &o) {
            bool b = pairs ? h.insert(std::make_pair(o.first, o.second)) : h.insert(o.first, o.second);
            SIM_CHECK(b, "multimap-insert-result", "insertion into the growing multimap did not report success");
            { NoPreempt np; own[o.first].insert(o.second); }
            if (disjoint) {   // nobody else touches this key: everything inserted so far must be there, whatever others do
                auto g = mm_get(h, o.first, 4096); bool c = h.contains(o.first); NoPreempt np;
                if (g != own[o.first] || !c) sim::violation("multimap-read-own", str("get(%u) yields %s although this thread alone inserted %s", o.first, showset(g).c_str(), showset(own[o.first]).c_str()));
            }
        };
        if (fresh) for (auto &o : plan[t]) { MHnd h(tab); one(h, o); }
        else { MHnd h(tab); for (auto &o : plan[t]) one(h, o); }
    });
    sim::parallel(fs);
    { MHnd h(tab); judge_mm(h, want, absent, "handle"); if (h.capacity() > nextPow2(cap)) sim::probe("grew"); if (h.capacity() > 4 * nextPow2(cap)) sim::probe("grew-repeatedly"); sim::note_state(sim::mix(h.capacity(), want.size())); }
    { const MTab &ct = tab; ConstGrowingHashTableHandle<MMap> h(ct); judge_mm(h, want, absent, "const handle"); }
    if (wlcoin(0.4)) { LP_MultiMap<uint, uint> s(std::move(tab.data())); judge_mm(s, want, absent, "converted sequential multimap"); }
}
SIM_SCENARIO(C02, small, 5) {
    size_t th = (size_t) knob("threads", 2, 4); bool own = knob_bool("read-own", 0.5);
    size_t uni = own ? th * (size_t) knob("keys-per-thread", 1, 3) : (size_t) knob("universe", 1, 8);
    mm_run((size_t) knob_pick("capacity", {0, 1, 2, 4, 8, 16}), (size_t) knob("prefill", 0, 3), th, (size_t) knob("ops", 1, 8), (int) knob_pick("keys", {0, 1, 1, 2, 3}), uni, own);
}
SIM_SCENARIO(C02, blocks, 2) {
    sim::set_gap(30, 3000, 3, 600); size_t cap = (size_t) knob_pick("capacity", {512, 1024}); size_t th = (size_t) knob("threads", 2, 4); bool own = knob_bool("read-own", 0.4);
    mm_run(cap, cap / 2 - (size_t) knob("below-threshold", 1, 6), th, (size_t) knob("ops", 2, 9), (int) knob_pick("keys", {0, 2}), own ? th * 2 : (size_t) knob("universe", 1, 8), own);
}
// the edge map of the sampler: a growing single-value map, values derived from the key
SIM_SCENARIO(C02, edgemap, 2) {
    typedef Concurrent_LP_Map<uint, int> EM; typedef GrowingHashTable<EM> ET; typedef GrowingHashTableHandle<EM> EH;
    size_t cap = (size_t) knob_pick("capacity", {0, 1, 2, 4, 16, 512}), threads = (size_t) knob("threads", 2, 4), opsPer = (size_t) knob("ops", 1, 9), pre = cap == 512 ? 250 : 0, uni = (size_t) knob("universe", 1, 14);
    std::vector<uint> all = make_keys(pre + uni + 2, (int) knob_pick("keys", {0, 1, 2})), absent(all.end() - 2, all.end());
    auto val = [](uint k) { return (int) (k % 1000003) + 7; };
    ET tab(cap, 0u); std::set<uint> want;
    { EH h(tab); for (size_t i = 0; i < pre; ++i) { h.insert(all[i], val(all[i])); NoPreempt np; want.insert(all[i]); } }
    std::vector<std::vector<uint>> plan(threads); { NoPreempt np; for (auto &p : plan) for (size_t i = 0; i < opsPer; ++i) { p.push_back(all[pre + sim::wl.below(uni)]); want.insert(p.back()); } }
    std::map<uint, int> news; std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { EH h(tab); for (uint k : plan[t]) { bool b = h.insert(k, val(k)); { NoPreempt np; news[k] += b; }
        int g = h.get(k); SIM_CHECK(g == val(k) || g == 0, "map-garbage", str("get(%u) yields %d, every insertion stored %d", k, g, val(k))); } });
    sim::parallel(fs);
    EH h(tab); SIM_CHECK(h.size() == want.size(), "map-size", str("size() is %zu with %zu distinct keys", (size_t) h.size(), want.size()));
    for (uint k : want) { int g = h.get(k); bool c = h.contains(k); SIM_CHECK(c && g == val(k), "map-content", str("get(%u) yields %d instead of %d", k, g, val(k))); }
    for (auto &p : news) SIM_CHECK(p.second == 1, "map-insert-new", str("key %u reported as new %d times", p.first, p.second));
    for (uint k : absent) { bool c = h.contains(k); SIM_CHECK(!c, "map-phantom", str("contains(%u)", k)); }
    std::map<uint, int> got; size_t m = 0; auto e = h.end(); for (auto i = h.begin(); i != e; ++i) { auto kv = *i; NoPreempt np; got[kv.first] = kv.second; if (++m > 5000) break; }
    NoPreempt np; if (m != want.size()) sim::violation("map-iteration", str("iteration yields %zu entries for %zu keys", m, want.size()));
    for (auto &p : got) if (!want.count(p.first) || p.second != val(p.first)) sim::violation("map-iteration", str("iteration yields (%u,%d)", p.first, p.second));
    sim::note_state(sim::mix(h.capacity(), m)); if (h.capacity() > nextPow2(cap)) sim::probe("grew");
}

// ------------------------------------------------------------------ C03
struct SetModel { uint64_t bits = 0; int n = 0, cap = 0; const std::vector<uint> *keys = nullptr; std::string key() const { return std::to_string(bits); }
    int idx(uint64_t k) const { for (size_t i = 0; i < keys->size(); ++i) if ((*keys)[i] == k) return (int) i; return 63; } };
SIM_SCENARIO(C03, set, 4) {
    sim::set_limits(60000, 300000);
    size_t cap = (size_t) knob_pick("capacity", {1, 2, 4, 8}), threads = (size_t) knob("threads", 2, 4), ops = (size_t) knob("ops", 1, 5), uni = (size_t) knob("universe", 1, 9);
    std::vector<uint> keys = make_keys(uni, (int) knob_pick("keys", {0, 1, 2, 3})); Concurrent_LP_Set<uint> s(cap);
    SIM_CHECK(s.capacity() == nextPow2(cap), "fixed-capacity", "capacity() is not the requested power of two");
    SetModel m; m.keys = &keys; m.cap = (int) cap; size_t pre = std::min<size_t>((size_t) knob("prefill", 0, 7), std::min(uni, cap));
    for (size_t i = 0; i < pre; ++i) { bool b = s.insert(keys[i]); SIM_CHECK(b, "insert-none-new", "first insertion of a key must report a new element"); m.bits |= 1ull << i; ++m.n; }
    History H; std::vector<std::vector<std::pair<int, uint>>> plan(threads); { NoPreempt np; for (auto &p : plan) for (size_t i = 0; i < ops; ++i) p.push_back({sim::wl.coin(0.3) ? HAS : INS, keys[sim::wl.below(uni)]}); }
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (auto &o : plan[t]) { size_t i = H.invoke(o.first, o.second); if (o.first == INS) { InsertReturn r = s.insert(o.second); H.ret(i, r == InsertReturn::State::Full ? 2 : (bool) r); } else { bool r = wlcoin(0.3) ? s.count(o.second) : s.contains(o.second); H.ret(i, r); } } });
    sim::parallel(fs);
    bool gave = false;
    bool ok = linearizable(H.ops, m, [](SetModel &st, const Op &o) {
        int i = st.idx(o.key); bool in = st.bits >> i & 1;
        if (o.kind == HAS) return (o.res != 0) == in;
        if (o.res == 2) return st.n >= st.cap;                  // Full only when full (also allowed for a present key then)
        if (in) return o.res == 0;
        if (o.res != 1 || st.n >= st.cap) return false;
        st.bits |= 1ull << i; ++st.n; return true; }, 200000, &gave);
    if (gave) sim::probe("linearizability-search-cut");
    SIM_CHECK(ok, "set-not-linearizable", str("capacity %zu, %zu present before: ", cap, pre) + show(H.ops, ONAMES));
    std::set<uint> want; { NoPreempt np; for (size_t i = 0; i < pre; ++i) want.insert(keys[i]); for (auto &o : H.ops) { if (o.kind == INS && o.res == 1) want.insert((uint) o.key); if (o.res == 2 && o.kind == INS) sim::probe("full"); sim::note_state((uint64_t) o.res); } }
    std::vector<uint> absent; for (uint k : keys) if (!want.count(k)) absent.push_back(k);
    judge_set_content(s, want, absent, "set");
}
struct RegModel { uint64_t v = 0; std::string key() const { return std::to_string(v); } };
SIM_SCENARIO(C03, map, 3) {
    sim::set_limits(60000, 300000);
    size_t cap = (size_t) knob_pick("capacity", {2, 4, 8, 16}), threads = (size_t) knob("threads", 2, 4), ops = (size_t) knob("ops", 1, 5), uni = (size_t) knob("universe", 1, 6);
    std::vector<uint> keys = make_keys(uni, (int) knob_pick("keys", {0, 1, 2, 3})); Concurrent_LP_Map<uint, uint> s(cap); History H; uint nextv = 1000;
    std::vector<std::vector<Op>> plan(threads); { NoPreempt np; for (auto &p : plan) for (size_t i = 0; i < ops; ++i) { Op o{}; o.kind = sim::wl.coin(0.4) ? GET : sim::wl.coin(0.2) ? HAS : INS; o.key = keys[sim::wl.below(uni)]; o.val = nextv++; p.push_back(o); } }
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (auto &o : plan[t]) { size_t i = H.invoke(o.kind, o.key, o.val);
        if (o.kind == INS) { InsertReturn r = s.insert((uint) o.key, (uint) o.val); H.ret(i, r == InsertReturn::State::Full ? 2 : (bool) r); } else if (o.kind == GET) { uint g = s.get((uint) o.key); H.ret(i, g); } else { bool r = s.contains((uint) o.key); H.ret(i, r); } } });
    sim::parallel(fs);
    std::map<uint, uint> fin; for (uint k : keys) { size_t i = H.invoke(GET, k); uint g = s.get(k); H.ret(i, g); if (g) fin[k] = g; }
    NoPreempt np; size_t touched;
    for (uint k : keys) {
        std::vector<Op> w; const Op *win = nullptr; uint64_t lastFalse = ~0ull;
        for (auto &o : H.ops) if (o.key == k && !(o.kind == INS && o.res == 2)) {
            w.push_back(o); if (o.kind == INS && o.res == 1) { if (win) sim::violation("map-insert-twice-new", show(H.ops, ONAMES)); win = &o; }
            if (o.kind == INS && o.res == 0) lastFalse = std::min(lastFalse, o.ret);
        }
        if (lastFalse != ~0ull && (!win || lastFalse < win->inv)) sim::violation("map-insert-none-new", show(H.ops, ONAMES));
        bool gave = false;
        if (!linearizable(w, RegModel(), [](RegModel &m, const Op &o) { if (o.kind == INS) { m.v = o.val; return true; } if (o.kind == GET) return (uint64_t) o.res == m.v; return (o.res != 0) == (m.v != 0); }, 200000, &gave))
            sim::violation("map-not-linearizable", str("key %u: ", k) + show(w, ONAMES));
    }
    for (auto &o : H.ops) { if (o.kind == INS && o.res == 2) { std::set<uint64_t> t; for (auto &x : H.ops) if (x.kind == INS && x.inv < o.ret) t.insert(x.key); touched = t.size(); sim::probe("full");
        if (touched < s.capacity() / 2) sim::violation("map-full-too-early", str("Full with at most %zu of %zu slots used; ", touched, (size_t) s.capacity()) + show(H.ops, ONAMES)); }
        sim::note_state((uint64_t) o.res); }
    std::map<uint, uint> it; for (auto i = s.begin(); i != s.end(); ++i) { auto kv = *i; if (!it.insert({kv.first, kv.second}).second) sim::violation("map-iteration", "a key is visited twice"); }
    if (it != fin || s.size() != fin.size()) sim::violation("map-iteration", str("iteration yields %zu entries, size() is %zu, %zu keys are present", it.size(), (size_t) s.size(), fin.size()));
}
SIM_SCENARIO(C03, multimap, 2) {
    sim::set_limits(60000, 300000);
    size_t cap = (size_t) knob_pick("capacity", {2, 4, 8, 16, 32}), threads = (size_t) knob("threads", 2, 4), ops = (size_t) knob("ops", 1, 8), uni = (size_t) knob("universe", 1, 6);
    std::vector<uint> keys = make_keys(uni + 2, (int) knob_pick("keys", {0, 1, 2, 3})), absent(keys.end() - 2, keys.end()); keys.resize(uni); MMap s(cap); uint nextv = 1; std::map<uint, std::multiset<uint>> want; size_t fulls = 0, oks = 0;
    std::vector<std::vector<std::pair<uint, uint>>> plan(threads); { NoPreempt np; for (auto &p : plan) for (size_t i = 0; i < ops; ++i) p.push_back({keys[sim::wl.below(uni)], nextv++}); }
    std::vector<std::function<void()>> fs;
    for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] { for (auto &o : plan[t]) { InsertReturn r = s.insert(o.first, o.second); NoPreempt np; if (r) { ++oks; want[o.first].insert(o.second); } else { SIM_CHECK(r == InsertReturn::State::Full, "multimap-insert-result", "insert neither stored the entry nor reported Full"); ++fulls; sim::probe("full"); SIM_CHECK(oks + threads > s.capacity() / 2, "multimap-full-too-early", str("Full with %zu of %zu slots used", oks, (size_t) s.capacity())); } } });
    { sim::parallel(fs); SIM_CHECK(fulls == 0 || oks >= s.capacity() / 2, "multimap-full-too-early", str("%zu stored, %zu refused, capacity %zu", oks, fulls, (size_t) s.capacity())); if (oks < s.capacity()) judge_mm(s, want, absent, "multimap"); sim::note_state(oks * 100 + fulls); }
}

// ------------------------------------------------------------------ C05
template<class S> static std::set<uint> fill_set(S &s, const std::vector<uint> &k, double p) { std::set<uint> r; for (uint x : k) if (wlcoin(p)) { s.insert(x); NoPreempt np; r.insert(x); } return r; }
static std::set<uint> set_minus(const std::set<uint> &a, const std::set<uint> &b, const std::set<uint> &f) { NoPreempt np; std::set<uint> r; for (uint x : a) if (!f.count(x)) r.insert(x); for (uint x : b) if (!f.count(x)) r.insert(x); return r; }
static std::vector<uint> vec_minus(const std::vector<uint> &k, const std::set<uint> &r) { NoPreempt np; std::vector<uint> v; for (uint x : k) if (!r.count(x)) v.push_back(x); return v; }
SIM_SCENARIO(C05, set_merge, 4) {
    std::vector<uint> keys = make_keys((size_t) knob("universe", 1, 60), (int) knob_pick("keys", {0, 1, 2, 3})); size_t ca = (size_t) knob_pick("capA", {64, 128, 256}), cb = (size_t) knob_pick("capB", {64, 128, 512});
    double pa = (double) knob("a%", 0, 100) / 100, pb = (double) knob("b%", 0, 100) / 100, pf = (double) knob("f%", 0, 100) / 100;
    LP_Set<uint> f(256); auto F = fill_set(f, keys, pf); int kind = (int) knob("kind", 0, 5); std::set<uint> A, B, W;
    if (kind <= 2) {
        Concurrent_LP_Set<uint> a(ca); A = fill_set(a, keys, pa);
        if (kind == 0) { Concurrent_LP_Set<uint> b(cb); B = fill_set(b, keys, pb); W = set_minus(A, B, F); a.unsafe_merge(std::move(b), f); }
        else if (kind == 1) { LP_Set<uint> b(cb); B = fill_set(b, keys, pb); W = set_minus(A, B, F); a.unsafe_merge(std::move(b), f); }
        else { GTab b(2, 0u); { GHnd h(b); B = fill_set(h, keys, pb); } W = set_minus(A, B, F); GHnd h(b); a.unsafe_merge(std::move(h), f); }
        judge_set_content(a, W, vec_minus(keys, W), "merged set");
        LP_Set<uint> s(std::move(a)); judge_set_content(s, W, vec_minus(keys, W), "converted to sequential"); Concurrent_LP_Set<uint> c(std::move(s)); judge_set_content(c, W, vec_minus(keys, W), "converted back");
    } else if (kind == 3) {
        GTab a(2, 0u); { GHnd h(a); A = fill_set(h, keys, pa); } LP_Set<uint> b(cb); B = fill_set(b, keys, pb); W = set_minus(A, B, F);
        GHnd h(a); h.unsafe_merge(std::move(b), f); judge_set_content(h, W, vec_minus(keys, W), "merged growing set");
        for (uint x : keys) if (!W.count(x)) { h.insert(x); NoPreempt np; W.insert(x); } judge_set_content(h, W, {}, "refilled growing set");
    } else if (kind == 4) {
        Hasher<uint> hs; LP_Set<uint> a(ca, hs); A = fill_set(a, keys, pa); Concurrent_LP_Set<uint> c(ca, 0u, hs); c.unsafe_copy(a); judge_set_content(c, A, {}, "unsafe_copy"); judge_set_content(a, A, {}, "source of unsafe_copy");
    } else {
        LP_Set<uint, true> a(2), b(2); A = fill_set(a, keys, pa); B = fill_set(b, keys, pb); bool flt = knob_bool("filtered", 0.5); W = set_minus(A, B, flt ? F : std::set<uint>()); if (flt) a.merge(std::move(b), f); else a.merge(std::move(b)); judge_set_content(a, W, vec_minus(keys, W), "sequential merge");
    }
    sim::note_state(digest(W.begin(), W.end()));
}
template<class M> static std::map<uint, uint> fill_map(M &m, const std::vector<uint> &k, double p, uint add) { std::map<uint, uint> r; for (uint x : k) if (wlcoin(p)) { uint v = x / 2 + add; if (!v) v = 1; m.insert(x, v); NoPreempt np; r[x] = v; } return r; }
template<class M> static void judge_map(const M &m, const std::map<uint, uint> &want, const std::map<uint, uint> *alt, const std::vector<uint> &absent, const char *what) {
    SIM_CHECK(m.size() == want.size(), "map-size", str("%s: size() %zu, expected %zu", what, (size_t) m.size(), want.size()));
    auto good = [&](uint k, uint v) { auto i = want.find(k); if (i == want.end()) return false; if (i->second == v) return true; if (!alt) return false; auto j = alt->find(k); return j != alt->end() && j->second == v; };
    for (auto &p : want) { uint g = m.get(p.first); bool c = m.contains(p.first); SIM_CHECK(c && good(p.first, g), "map-content", str("%s: get(%u) yields %u", what, p.first, g)); }
    for (uint k : absent) { bool c = m.contains(k); uint g = m.get(k); SIM_CHECK(!c && g == 0, "map-phantom", str("%s: key %u", what, k)); }
    std::set<uint> seen; size_t n = 0; auto e = m.end(); for (auto i = m.begin(); i != e; ++i) { auto kv = *i; NoPreempt np; ++n; seen.insert(kv.first); if (!good(kv.first, kv.second)) sim::violation("map-iteration", str("%s: yields (%u,%u)", what, kv.first, kv.second)); if (n > 10000) break; }
    SIM_CHECK(n == want.size() && seen.size() == n, "map-iteration", str("%s: %zu entries visited, %zu present", what, n, want.size()));
}
SIM_SCENARIO(C05, map_merge, 3) {
    std::vector<uint> keys = make_keys((size_t) knob("universe", 1, 50), (int) knob_pick("keys", {0, 1, 2, 3})); size_t ca = (size_t) knob_pick("capA", {128, 256}), cb = (size_t) knob_pick("capB", {128, 512});
    double pa = (double) knob("a%", 0, 100) / 100, pb = (double) knob("b%", 0, 100) / 100, pf = (double) knob("f%", 0, 100) / 100; LP_Set<uint> f(256); auto F = fill_set(f, keys, pf);
    Concurrent_LP_Map<uint, uint> a(ca), b(cb); auto A = fill_map(a, keys, pa, 1), B = fill_map(b, keys, pb, 77); std::map<uint, uint> W; int kind = (int) knob("kind", 0, 3);
    if (kind == 0) { a.unsafe_rehash((size_t) knob_pick("newcap", {128, 256, 1024})); W = A; judge_map(a, A, nullptr, {}, "rehashed map"); }
    else if (kind == 1) { W = A; W.insert(B.begin(), B.end()); a.unsafe_merge(std::move(b)); judge_map(a, W, &B, {}, "merged map"); }
    else if (kind == 2) { { NoPreempt np; for (auto &p : A) if (!F.count(p.first)) W.insert(p); for (auto &p : B) if (!F.count(p.first)) W.insert(p); } a.unsafe_merge(std::move(b), f); std::set<uint> ws; for (auto &p : W) ws.insert(p.first); judge_map(a, W, &B, vec_minus(keys, ws), "filtered merge of maps"); }
    else { W = A; LP_Map<uint, uint> s(std::move(a)); judge_map(s, A, nullptr, {}, "converted to sequential"); Concurrent_LP_Map<uint, uint> c(std::move(s)); judge_map(c, A, nullptr, {}, "converted back"); c.unsafe_rehash(512); judge_map(c, A, nullptr, {}, "rehashed after conversion"); }
    sim::note_state(W.size());
}
template<class M> static void fill_mm(M &m, const std::vector<uint> &k, size_t n, uint &nextv, std::map<uint, std::multiset<uint>> &w) { for (size_t i = 0; i < n; ++i) { uint x = k[wlbelow(k.size())], v = nextv++; m.insert(x, v); NoPreempt np; w[x].insert(v); } }
SIM_SCENARIO(C05, multimap_merge, 3) {
    std::vector<uint> keys = make_keys((size_t) knob("universe", 1, 20) + 1, (int) knob_pick("keys", {0, 1, 2, 3})), absent{keys.back()}; keys.pop_back(); uint nv = 1; std::map<uint, std::multiset<uint>> A, B, W;
    LP_Set<uint> f(256); auto F = fill_set(f, keys, (double) knob("f%", 0, 100) / 100); size_t na = (size_t) knob("a", 0, 40), nb = (size_t) knob("b", 0, 40); int kind = (int) knob("kind", 0, 5);
    auto uni = [&](bool flt) { NoPreempt np; W = A; for (auto &p : B) W[p.first].insert(p.second.begin(), p.second.end()); if (flt) for (uint x : F) W.erase(x); };
    auto gone = [&](bool flt) { std::vector<uint> v = absent; if (flt) v.insert(v.end(), F.begin(), F.end()); return v; };
    if (kind <= 1) {
        MMap a(128); fill_mm(a, keys, na, nv, A);
        if (kind == 0) { MMap b(128); fill_mm(b, keys, nb, nv, B); uni(true); a.unsafe_merge(std::move(b), f); } else { LP_MultiMap<uint, uint> b(128); fill_mm(b, keys, nb, nv, B); uni(true); a.unsafe_merge(std::move(b), f); }
        judge_mm(a, W, gone(true), "merged multimap"); LP_MultiMap<uint, uint> s(std::move(a)); judge_mm(s, W, gone(true), "converted to sequential"); MMap c(std::move(s)); judge_mm(c, W, gone(true), "converted back");
    } else if (kind == 2) { MMap a(128); fill_mm(a, keys, na, nv, A); B.clear(); uni(false); a.unsafe_rehash((size_t) knob_pick("newcap", {128, 512})); judge_mm(a, W, absent, "rehashed multimap"); }
    else if (kind == 3) { MTab a(4, 0u); { MHnd h(a); fill_mm(h, keys, na, nv, A); } MTab b(4, 0u); { MHnd h(b); fill_mm(h, keys, nb, nv, B); } uni(true); MHnd ha(a), hb(b); ha.unsafe_merge(std::move(hb), f); judge_mm(ha, W, gone(true), "merged growing multimap"); fill_mm(ha, keys, 20, nv, W); judge_mm(ha, W, absent, "growing multimap refilled after merge"); }
    else if (kind == 5) { Hasher<uint> hs; LP_MultiMap<uint, uint> a(128, hs); fill_mm(a, keys, na, nv, A); W = A; MMap c(a.capacity(), 0u, hs); c.unsafe_copy(a); judge_mm(c, W, absent, "unsafe_copy of a multimap"); judge_mm(a, W, absent, "source of unsafe_copy"); }
    else { LP_MultiMap<uint, uint> a(128), b(128); fill_mm(a, keys, na, nv, A); fill_mm(b, keys, nb, nv, B); bool flt = knob_bool("filtered", 0.5); uni(flt); if (flt) a.merge(std::move(b), f); else a.merge(std::move(b)); judge_mm(a, W, gone(flt), "sequential merge"); }
    size_t n = 0; for (auto &p : W) n += p.second.size(); sim::note_state(n);
}

// long histories over the sequential containers: grow by insertion, rehash, merge, filter, copy, move; judged after every bulk step
// through an archive, over an object that already holds something else
template<class S> static void store_load(const S &from, S &to) { NoPreempt np; std::ostringstream os; { boost::archive::binary_oarchive ar(os); ar << from; } std::istringstream is(os.str()); boost::archive::binary_iarchive ar(is); ar >> to; }
template<class S> static void seq_judge(S &s, const std::set<uint> &w, const std::vector<uint> &keys, const char *what) { judge_set_content(s, w, vec_minus(keys, w), what); }
SIM_SCENARIO(C05, sequential, 3) {
    int kind = (int) knob("kind", 0, 2); size_t steps = (size_t) knob("steps", 2, 24); std::vector<uint> keys = make_keys((size_t) knob("universe", 1, 24) + 1, (int) knob_pick("keys", {0, 1, 2, 3})); std::vector<uint> absent{keys.back()}; keys.pop_back();
    size_t ca = (size_t) knob_pick("capA", {0, 1, 2, 4, 16, 64}), cb = (size_t) knob_pick("capB", {0, 1, 2, 8, 64}); uint nv = 1;
    auto newcap = [&](size_t n) { size_t m = wlbelow(4); return m == 0 ? n + 1 : m == 1 ? 2 * n : m == 2 ? 4 * n + 3 : std::max<size_t>(128, n + 1); };
    auto pickset = [&](LP_Set<uint, true> &f) { return fill_set(f, keys, (double) wlbelow(101) / 100); };
    if (kind == 0) {
        LP_Set<uint, true> a(ca); std::set<uint> A;
        for (size_t i = 0; i < steps; ++i) { int op = (int) wlbelow(13); if (a.capacity() > 2048 && op == 6) op = 5;   // every merge adds up the capacities
           
            if (op < 5) { uint k = keys[wlbelow(keys.size())]; bool n = a.insert(k); SIM_CHECK(n == (A.count(k) == 0), "set-insert-result", str("insert(%u) returned %d", k, n)); A.insert(k); continue; }
            const char *what = "";
            if (op == 5) { what = "sequential rehash"; a.rehash(newcap(A.size())); }
            else if (op == 6) { what = "sequential merge"; LP_Set<uint, true> b(cb); auto B = pickset(b); a.merge(std::move(b)); A.insert(B.begin(), B.end()); }
            else if (op == 7) { what = "sequential filtered merge"; LP_Set<uint, true> b(cb), f(4); auto B = wlcoin(0.3) ? std::set<uint>() : pickset(b), F = pickset(f); A.insert(B.begin(), B.end()); bool keep = wlcoin(0.3); a.merge(std::move(b), f, keep); std::set<uint> R; for (uint x : A) if ((F.count(x) != 0) == keep) R.insert(x); A = R; if (keep) what = "sequential merge that keeps the elements of the filter"; }
            else if (op == 8) { what = "filter"; LP_Set<uint, true> f(4); auto F = pickset(f); a.filter(f); for (uint x : F) A.erase(x); }
            else if (op == 9) { what = "copy"; LP_Set<uint, true> c(a); uint k = keys[wlbelow(keys.size())]; bool n = c.insert(k); SIM_CHECK(n == (A.count(k) == 0), "set-insert-result", "insert into a copy"); seq_judge(a, A, keys, "source of a copy"); A.insert(k); a = std::move(c); }
            else if (op == 10) { what = "move"; LP_Set<uint, true> c(std::move(a)); LP_Set<uint, true> d(wlbelow(40)); for (size_t j = wlbelow(9); j; --j) d.insert((uint) j); d = std::move(c); a = std::move(d); }
            else if (op == 12) { what = "stored and loaded set"; LP_Set<uint, true> c(wlbelow(70)); for (size_t j = wlbelow(9); j; --j) c.insert((uint) j); store_load(a, c); seq_judge(a, A, keys, "stored set"); a = std::move(c); }
            else { what = "filtered rehash"; LP_Set<uint, true> f(4); auto F = pickset(f); bool keep = wlcoin(0.4); a.rehash(newcap(A.size()), f, keep); std::set<uint> R; for (uint x : A) if ((F.count(x) != 0) == keep) R.insert(x); A = R; }
            seq_judge(a, A, keys, what);
        }
        LP_Set<uint, true> other(4); for (uint x : A) other.insert(x); bool eq = a == other; SIM_CHECK(eq, "set-equality", "two sets of equal content compare different"); if (other.insert(absent[0])) { eq = a == other; SIM_CHECK(!eq, "set-equality", "two different sets compare equal"); }
        seq_judge(a, A, keys, "set after the whole history"); sim::note_state(digest(A.begin(), A.end()));
    } else if (kind == 1) {
        LP_Map<uint, uint> a(ca); std::map<uint, uint> A; auto ks = [&] { std::set<uint> s; for (auto &p : A) s.insert(p.first); return s; };
        auto ins = [&](LP_Map<uint, uint> &m, std::map<uint, uint> &M) { uint k = keys[wlbelow(keys.size())], v = nv++; bool isnew = !M.count(k), n = wlcoin(0.5) ? m.insert(k, v) : m.insert(std::make_pair(k, v)); M[k] = v; SIM_CHECK(n == isnew, "map-insert-result", str("insert(%u) returned %d", k, n)); uint g = m.get(k); SIM_CHECK(g == v, "map-content", str("get(%u) yields %u right after the value was set to %u", k, g, v)); };
        for (size_t i = 0; i < steps; ++i) { int op = (int) wlbelow(12); if (a.capacity() > 2048 && (op == 6 || op == 7)) op = 5;   // every merge adds up the capacities
            const char *what = "";
            if (op < 5) { ins(a, A); continue; }
            if (op == 5) { what = "sequential rehash of a map"; a.rehash(newcap(A.size()) + 1); }
            else if (op == 6 || op == 7) { what = "sequential merge of maps"; LP_Map<uint, uint> b(cb); std::map<uint, uint> B; for (size_t j = wlbelow(12); j; --j) ins(b, B); LP_Set<uint, true> f(4); std::set<uint> F; if (op == 7) { F = pickset(f); a.merge(std::move(b), f); what = "sequential filtered merge of maps"; } else a.merge(std::move(b)); for (auto &p : B) A[p.first] = p.second; for (uint x : F) A.erase(x); }
            else if (op == 8) { what = "filtered rehash of a map"; LP_Set<uint, true> f(4); auto F = pickset(f); a.rehash(newcap(A.size()) + 1, f); for (uint x : F) A.erase(x); }
            else if (op == 9) { what = "move of a map"; LP_Map<uint, uint> c(std::move(a)); LP_Map<uint, uint> d(wlbelow(40)); for (size_t j = wlbelow(9); j; --j) d.insert((uint) j, 5); d = std::move(c); a = std::move(d); }
            else if (op == 11) { what = "stored and loaded map"; LP_Map<uint, uint> c(wlbelow(70)); for (size_t j = wlbelow(9); j; --j) c.insert((uint) j, 3); store_load(a, c); judge_map(a, A, nullptr, {}, "stored map"); a = std::move(c); }
            else { what = "map converted and back"; Concurrent_LP_Map<uint, uint> c(std::move(a)); a = LP_Map<uint, uint>(std::move(c)); }
            judge_map(a, A, nullptr, vec_minus(keys, ks()), what);
        }
        std::vector<uint> gone = vec_minus(keys, ks()); gone.push_back(absent[0]); judge_map(a, A, nullptr, gone, "map after the whole history"); sim::note_state(A.size() * 1000 + nv);
    } else {
        typedef LP_MultiMap<uint, uint> SM; SM a(ca); std::map<uint, std::multiset<uint>> A;
        auto ins = [&](SM &m, std::map<uint, std::multiset<uint>> &M) { uint k = keys[wlbelow(keys.size())], v = nv++; bool n = wlcoin(0.5) ? m.insert(k, v) : m.insert(std::make_pair(k, v)); M[k].insert(v); SIM_CHECK(n, "multimap-insert-result", "insertion into the sequential multimap did not report success"); };
        auto gone = [&] { std::vector<uint> v = absent; for (uint k : keys) if (!A.count(k)) v.push_back(k); return v; };
        for (size_t i = 0; i < steps; ++i) { int op = (int) wlbelow(12); if (a.capacity() > 2048 && (op == 6 || op == 7)) op = 5;   // every merge adds up the capacities
            const char *what = ""; size_t n = 0; for (auto &p : A) n += p.second.size();
            if (op < 5) { ins(a, A); continue; }
            if (op == 5) { what = "sequential rehash of a multimap"; a.rehash(newcap(n) + 1); }
            else if (op == 6 || op == 7) { what = "sequential merge of multimaps"; SM b(cb); std::map<uint, std::multiset<uint>> B; for (size_t j = wlbelow(12); j; --j) ins(b, B); LP_Set<uint, true> f(4); std::set<uint> F; if (op == 7) { F = pickset(f); a.merge(std::move(b), f); what = "sequential filtered merge of multimaps"; } else a.merge(std::move(b)); for (auto &p : B) A[p.first].insert(p.second.begin(), p.second.end()); for (uint x : F) A.erase(x); }
            else if (op == 8) { what = "filtered rehash of a multimap"; LP_Set<uint, true> f(4); auto F = pickset(f); a.rehash(newcap(n) + 1, f); for (uint x : F) A.erase(x); }
            else if (op == 9) { what = "move of a multimap"; SM c(std::move(a)); SM d(wlbelow(40)); for (size_t j = wlbelow(9); j; --j) d.insert((uint) j, 5); d = std::move(c); a = std::move(d); }
            else if (op == 11) { what = "stored and loaded multimap"; SM c(wlbelow(70)); for (size_t j = wlbelow(9); j; --j) c.insert((uint) j, 3); store_load(a, c); judge_mm(a, A, gone(), "stored multimap"); a = std::move(c); }
            else { what = "multimap converted and back"; MMap c(std::move(a)); a = SM(std::move(c)); }
            judge_mm(a, A, gone(), what);
        }
        judge_mm(a, A, gone(), "multimap after the whole history"); sim::note_state(A.size() * 1000 + nv);
    }
}

// ------------------------------------------------------------------ C06
template<class Range, class Sink> static void split_walk(Range &r, const Sink &sink, int depth) {
    bool div = r.is_divisible(), empty = r.empty();
    if (div && !empty && depth < 40 && wlcoin(0.85)) { Range right(r, tbb::split()); if (wlcoin(0.5)) { split_walk(right, sink, depth + 1); split_walk(r, sink, depth + 1); } else { split_walk(r, sink, depth + 1); split_walk(right, sink, depth + 1); } return; }
    if (div && empty) { NoPreempt np; sim::violation("range-empty-divisible", "an empty range claims to be divisible"); }
    size_t guard = 0; for (auto i = r.begin(); i != r.end(); ++i) { sink(*i); if (++guard > 200000) { NoPreempt np; sim::violation("range-overrun", "iteration over a split range does not reach its end"); } }
}
template<class C, class Val> static void ranges(const C &c, const std::multiset<uint> &want, const Val &val, const char *what) {
    auto cmp = [&](const std::multiset<uint> &got, const char *how) { NoPreempt np; if (got != want) { std::string d; for (uint x : want) if (got.count(x) != want.count(x)) { d = str(", e.g. element %u visited %zu times", x, got.count(x)); break; } sim::violation("range-cover", str("%s, %s: %zu visits for %zu elements%s", what, how, got.size(), want.size(), d.c_str())); } };
    int mode = (int) knob("walk", 0, 2); std::multiset<uint> got;
    if (mode == 0) { auto r = c.range(); tbb::parallel_for(r, [&](const auto &q) { for (auto i = q.begin(); i != q.end(); ++i) { auto v = *i; NoPreempt np; got.insert(val(v)); } }); cmp(got, "parallel_for over range()"); }
    else { typedef decltype(c.range()) R; size_t g = (size_t) knob_pick("grain", {1, 2, 3, 7, 50, 1000});
        R r = mode == 1 ? R(c, g) : c.range();
        if (mode == 1 && wlcoin(0.5)) tbb::parallel_for(r, [&](const auto &q) { for (auto i = q.begin(); i != q.end(); ++i) { auto v = *i; NoPreempt np; got.insert(val(v)); } });
        else split_walk(r, [&](const auto &v) { NoPreempt np; got.insert(val(v)); }, 0);
        cmp(got, mode == 1 ? "explicit grain size" : "recursive splitting of range()"); }
    sim::note_state(want.size());
}
SIM_SCENARIO(C06, hash, 4) {
    sim::set_gap(300, 20000, 30, 3000);
    int kind = (int) knob("container", 0, 6); size_t n = (size_t) knob_pick("elements", {0, 1, 2, 3, 5, 17, 60, 300}), cap = (size_t) knob_pick("capacity", {0, 16, 128, 1024, 4096}); if (2 * n > cap) n = cap / 2;
    std::vector<uint> k = make_keys(n + 1, (int) knob_pick("keys", {0, 2, 3})); k.resize(n); std::multiset<uint> want(k.begin(), k.end()); auto id = [](uint x) { return x; }; auto fst = [](const auto &p) { return p.first; };
    switch (kind) {
        case 0: { LP_Set<uint> s(cap); for (uint x : k) s.insert(x); ranges(s, want, id, "LP_Set"); break; }
        case 1: { Concurrent_LP_Set<uint> s(cap); for (uint x : k) s.insert(x); ranges(s, want, id, "Concurrent_LP_Set"); break; }
        case 2: { LP_Map<uint, uint> s(cap); for (uint x : k) s.insert(x, 5); ranges(s, want, fst, "LP_Map"); break; }
        case 3: { Concurrent_LP_Map<uint, uint> s(cap * 2); for (uint x : k) s.insert(x, 5); ranges(s, want, fst, "Concurrent_LP_Map"); break; }
        case 4: { LP_MultiMap<uint, uint> s(cap * 2); for (uint x : k) { s.insert(x, 5); if (wlcoin(0.2)) { s.insert(x, 6); want.insert(x); } } ranges(s, want, fst, "LP_MultiMap"); break; }
        case 5: { Concurrent_LP_MultiMap<uint, uint> s(cap * 4); for (uint x : k) { s.insert(x, 5); if (wlcoin(0.2)) { s.insert(x, 6); want.insert(x); } } ranges(s, want, fst, "Concurrent_LP_MultiMap"); break; }
        default: { GTab t(2, 0u); GHnd h(t); for (uint x : k) h.insert(x); std::multiset<uint> got; auto r = h.range(); tbb::parallel_for(r, [&](const auto &q) { for (auto i = q.begin(); i != q.end(); ++i) { uint v = *i; NoPreempt np; got.insert(v); } }); SIM_CHECK(got == want, "range-cover", "growing set"); }
    }
}

// ------------------------------------------------------------------ C15: failing allocations
SIM_SCENARIO(C15, grow, 4) {
    size_t cap = (size_t) knob_pick("capacity", {1, 2, 4, 8}), threads = (size_t) knob("threads", 1, 3), ops = (size_t) knob("ops", 2, 9); bool mm = knob_bool("multimap", 0.4);
    std::vector<uint> keys = make_keys(threads * ops + 2, (int) knob_pick("keys", {0, 1, 2})), absent(keys.end() - 2, keys.end()); size_t failed = 0;
    int64_t blocks0 = sim::live_blocks();
    auto go = [&](auto &tab, auto ins) {
        typedef typename std::decay<decltype(tab)>::type Tab; std::set<uint> want; std::vector<std::function<void()>> fs;
        for (size_t t = 0; t < threads; ++t) fs.push_back([&, t] {
            typename Tab::Handle h(tab);
            for (size_t i = 0; i < ops; ++i) { uint k = keys[t * ops + i]; bool done = false, b = false;
                for (int tries = 0; !done; ++tries) {
                    SIM_CHECK(tries < 200, "alloc-never-recovers", "the insertion keeps failing after memory became available");
                    try { b = ins(h, k); done = true; } catch (std::bad_alloc &) { NoPreempt np; ++failed; sim::probe("bad_alloc-surfaced"); }
                }
                SIM_CHECK(b, "alloc-insert-result", str("key %u was not reported as new", k)); { NoPreempt np; want.insert(k); }
                bool c = h.contains(k); SIM_CHECK(c, "alloc-lost", str("key %u vanished right after its insertion", k)); }
        });
        sim::fault_cap("alloc-fail", (int) knob("max-faults", 1, 4)); sim::alloc_faults((double) knob_pick("fault%", {5, 20, 50}) / 100.0);
        sim::parallel(fs); sim::alloc_faults(0);
        typename Tab::Handle h(tab);
        for (uint k : want) { bool c = h.contains(k); SIM_CHECK(c, "alloc-lost", str("key %u is missing after a failed allocation elsewhere", k)); }
        for (uint k : absent) { bool c = h.contains(k); SIM_CHECK(!c, "alloc-phantom", "phantom key"); }
        SIM_CHECK(h.size() == want.size(), "alloc-size", str("size() %zu, %zu keys", (size_t) h.size(), want.size()));
        sim::note_state(h.capacity() * 8 + failed);
    };
    try {
        if (mm) { MTab tab(std::max<size_t>(cap, 2), 0u); go(tab, [](auto &h, uint k) { return (bool) h.insert(k, k); }); } else { GTab tab(cap, 0u); go(tab, [](auto &h, uint k) { return (bool) h.insert(k); }); }
    } catch (std::bad_alloc &) { sim::probe("bad_alloc-ctor"); }
    (void) blocks0;
}
// bulk operations: either they succeed completely or std::bad_alloc reaches the caller; nothing leaks, nothing crashes
SIM_SCENARIO(C15, bulk, 4) {
    std::vector<uint> keys = make_keys((size_t) knob("universe", 1, 30), (int) knob_pick("keys", {0, 2})); int kind = (int) knob("kind", 0, 7); bool threw = false; std::set<uint> A, B, W;
    sim::fault_cap("alloc-fail", 1); double rate = (double) knob_pick("fault%", {30, 60, 100}) / 100.0; int64_t before = 0, after = 0;
    {
        std::set<uint> none; before = sim::live_blocks();
        {
            auto guarded = [&](auto f) { sim::alloc_faults(rate); try { f(); } catch (std::bad_alloc &) { threw = true; sim::probe("bad_alloc-surfaced"); } sim::alloc_faults(0); };
            LP_Set<uint> f(8);
            if (kind == 0) { Concurrent_LP_Set<uint> a(64), b(64); fill_set(a, keys, 0.5); fill_set(b, keys, 0.5); guarded([&] { a.unsafe_merge(std::move(b), f); }); }
            else if (kind == 1) { LP_Set<uint, true> a(2), b(16); fill_set(a, keys, 0.5); fill_set(b, keys, 0.5); guarded([&] { a.merge(std::move(b)); }); }
            else if (kind == 2) { LP_Set<uint, true> a(2); guarded([&] { for (uint k : keys) a.insert(k); }); }
            else if (kind == 3) { Concurrent_LP_Map<uint, uint> a(64), b(64); for (uint k : keys) (wlcoin(0.5) ? a : b).insert(k, 3); guarded([&] { a.unsafe_merge(std::move(b), f); }); }
            else if (kind == 4) { MMap a(64), b(64); for (uint k : keys) (wlcoin(0.5) ? a : b).insert(k, 3); guarded([&] { a.unsafe_merge(std::move(b), f); }); }
            else if (kind == 5) { guarded([&] { Concurrent_LP_Set<uint> a(64); for (uint k : keys) a.insert(k); LP_Set<uint> c(64); LP_Set<uint> d = c.copy(); }); }
            else if (kind == 6) { Concurrent_LP_Map<uint, uint> a(64); for (uint k : keys) a.insert(k, 3); guarded([&] { a.unsafe_rehash(128); }); }
            else { LP_MultiMap<uint, uint> a(64), b(64); for (uint k : keys) (wlcoin(0.5) ? a : b).insert(k, 3); guarded([&] { a.merge(std::move(b)); }); }
        }
        after = sim::live_blocks();
    }
    bool fired = sim::faults_fired("alloc-fail") > 0;
    SIM_CHECK(!fired || threw, "alloc-swallowed", "an allocation failed inside the operation, but no std::bad_alloc reached the caller");
    SIM_CHECK(fired || !threw, "alloc-spurious", "std::bad_alloc without a failed allocation");
    (void) before; (void) after; sim::note_state((uint64_t) threw * 16 + (uint64_t) kind);
}

// C16: the same runs, judged by what is left of their memory
static sim::Alias c16("C16", {"C01", "C02", "C03", "C05", "C15"}, sim::CHECK_LEAKS);
