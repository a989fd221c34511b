// Shared by all harnesses: workload helpers and recorded histories.
#pragma once
#include "sim.h"
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include <boost/noncopyable.hpp>

typedef unsigned int uint;

// One operation of a history; invoke/return carry the simulator's global event sequence.
struct Op {
    int thread; int kind; uint64_t key, val; uint64_t inv, ret; int64_t res;
};
struct History {
    std::vector<Op> ops; uint64_t clock = 0;
    size_t invoke(int kind, uint64_t key, uint64_t val = 0) {
        sim::NoPreempt np; ops.push_back(Op{sim::self(), kind, key, val, ++clock, ~0ull, 0}); return ops.size() - 1;
    }
    void ret(size_t i, int64_t res) { sim::NoPreempt np; ops[i].ret = ++clock; ops[i].res = res; }
};
inline uint64_t wlbelow(uint64_t n) { sim::NoPreempt np; return sim::wl.below(n); }
inline int64_t wlrange(int64_t a, int64_t b) { sim::NoPreempt np; return sim::wl.range(a, b); }
inline bool wlcoin(double p) { sim::NoPreempt np; return sim::wl.coin(p); }

// keys whose low bits coincide in groups, so that they collide in every small table
inline std::vector<uint> make_keys(size_t n, int style) {
    sim::NoPreempt np; std::set<uint> s; uint shift = (uint) sim::wl.range(1, 7);
    uint base = (uint) sim::wl.range(1, 100);
    while (s.size() < n) {
        uint k = 0;
        switch (style) {
            case 0: k = base + (uint) s.size(); break;                                        // dense ids
            case 1: k = (uint) (1 + sim::wl.below(3)) + ((uint) sim::wl.below(n * 2 + 4) << shift); break; // colliding
            case 2: k = (uint) sim::wl.next(); break;                                          // arbitrary, incl. top bit
            default: k = sim::wl.coin(0.5) ? base + (uint) sim::wl.below(n * 2 + 2) : (uint) ~0u - (uint) sim::wl.below(n + 2); break;
        }
        if (k != 0) s.insert(k);
    }
    std::vector<uint> v(s.begin(), s.end());
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[sim::wl.below(i)]);
    return v;
}

// Linearizability of a short history against a sequential model.
// Model: State must be copyable and have key() (uint64_t / string) ; step(State&, const Op&) -> bool legal.
template<typename State, typename Step>
bool linearizable(const std::vector<Op> &ops, const State &init, const Step &step, size_t limit = 200000, bool *gave_up = nullptr) {
    sim::NoPreempt np;
    size_t n = ops.size(); if (n > 60) { if (gave_up) *gave_up = true; return true; }
    std::set<std::pair<uint64_t, std::string>> seen; size_t steps = 0; bool ok = false;
    std::function<void(uint64_t, const State &)> rec = [&](uint64_t done, const State &s) {
        if (ok) return;
        if (done == (n == 64 ? ~0ull : ((1ull << n) - 1))) { ok = true; return; }
        if (++steps > limit) { ok = true; if (gave_up) *gave_up = true; return; }
        if (!seen.insert({done, s.key()}).second) return;
        uint64_t minret = ~0ull;
        for (size_t i = 0; i < n; ++i) if (!(done >> i & 1)) minret = std::min(minret, ops[i].ret);
        for (size_t i = 0; i < n && !ok; ++i) {
            if (done >> i & 1) continue;
            if (ops[i].inv > minret) continue;          // some pending op returned before this one began
            State t = s; if (step(t, ops[i])) rec(done | (1ull << i), t);
        }
    };
    rec(0, init);
    return ok;
}
inline std::string show(const std::vector<Op> &ops, const char *const *names) {
    sim::NoPreempt np; std::vector<Op> o = ops; std::sort(o.begin(), o.end(), [](const Op &a, const Op &b) { return a.inv < b.inv; });
    std::string s; for (auto &x : o) { s += sim::str("[t%d %s(%llu,%llu)=%lld @%llu..%llu] ", x.thread, names[x.kind], (unsigned long long) x.key, (unsigned long long) x.val, (long long) x.res, (unsigned long long) x.inv, (unsigned long long) x.ret); if (s.size() > 2500) { s += "..."; break; } }
    return s;
}
template<typename It> uint64_t digest(It b, It e) { uint64_t h = 1; for (; b != e; ++b) h = sim::mix(h, (uint64_t) *b); return h; }
