#pragma once
#include "simtbb.h"
// only used by CGAL's (disabled) profiling counters
namespace tbb {
template<typename K, typename V> class concurrent_hash_map {
    std::map<K, V> m_;
public:
    typedef typename std::map<K, V>::const_iterator const_iterator; typedef typename std::map<K, V>::iterator iterator;
    struct accessor { std::pair<const K, V> *p = nullptr; std::pair<const K, V> *operator->() const { return p; } };
    bool insert(accessor &a, const K &k) { auto r = m_.insert({k, V()}); a.p = &*r.first; return r.second; }
    const_iterator begin() const { return m_.begin(); } const_iterator end() const { return m_.end(); }
};
}
