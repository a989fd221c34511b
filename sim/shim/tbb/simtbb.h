// Simulated Threading Building Blocks.
// Worker threads are fibers; which worker takes which task, how far a range is split and
// when everybody is preempted is decided by the seeded scheduler (sim.h).
#pragma once
#include "sim.h"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <tuple>
#include <deque>
#include <exception>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

#define TBB_VERSION_MAJOR 2019
#define TBB_VERSION_MINOR 0
#define TBB_INTERFACE_VERSION 11000
#define TBB_INTERFACE_VERSION_MAJOR 11
#define __TBB_ASSERT(p, m) ((void) 0)
#ifndef __TBB_TASK_GROUP_CONTEXT
#define __TBB_TASK_GROUP_CONTEXT 0
#endif

namespace tbb {
class split {};
struct proportional_split { operator split() const { return split(); } };
typedef std::size_t stack_size_type;

namespace internal {
class no_assign { void operator=(const no_assign &) = delete; public: no_assign() {} };
class no_copy : no_assign { no_copy(const no_copy &) = delete; public: no_copy() {} };
template<typename T> struct strip { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template<typename C> auto first(C &c) -> decltype(c.begin()) { return c.begin(); }
template<typename C> auto first(const C &c) -> decltype(c.begin()) { return c.begin(); }
template<typename C> auto last(C &c) -> decltype(c.end()) { return c.end(); }
template<typename C> auto last(const C &c) -> decltype(c.end()) { return c.end(); }
template<typename T, size_t N> T *first(T (&a)[N]) { return a; }
template<typename T, size_t N> T *last(T (&a)[N]) { return a + N; }
}

// ------------------------------------------------------------------ scheduler
namespace simrt {
struct Group {                     // a set of tasks somebody waits for
    long pending = 0;
    bool cancelled = false;
    std::exception_ptr ex;
    Group *parent = nullptr;
};
struct Job {
    std::function<void()> run;
    Group *g;
};
void submit(Job j);                 // make available to any worker
void wait(Group &g);                // execute jobs until g.pending==0, then rethrow
Group *current();
int worker_index();                 // index of the calling fiber, for per-thread storage
bool cancelled(Group *g);
}

// ------------------------------------------------------------------ task (classic API)
class task_list;
class task : internal::no_copy {
    friend class task_list;
public:
    struct Prefix {
        task *parent = nullptr;     // successor
        std::atomic<long> ref{0};
        simrt::Group *group = nullptr;
        bool recycled = false, reexec = false, in_exec = false;
        task *self = nullptr;
    };
    Prefix pfx_;
    static Prefix &next_prefix();
    struct alloc_tag { task *parent; bool additional; };

    virtual ~task() {}
    virtual task *execute() = 0;

    static alloc_tag allocate_root() { return {nullptr, false}; }
    alloc_tag allocate_child() { return {this, false}; }
    alloc_tag allocate_continuation();
    static alloc_tag allocate_additional_child_of(task &t);

    void set_ref_count(int c) { sim::sync_point(); pfx_.ref.store(c); }
    int ref_count() const { return (int) pfx_.ref.load(); }
    void increment_ref_count() { pfx_.ref.fetch_add(1); }
    int decrement_ref_count() { return (int) pfx_.ref.fetch_sub(1) - 1; }
    void recycle_to_reexecute() { pfx_.recycled = true; pfx_.reexec = true; }
    void recycle_as_child_of(task &c) { pfx_.recycled = true; pfx_.parent = &c; }
    void recycle_as_continuation() { pfx_.recycled = true; }
    void recycle_as_safe_continuation() { pfx_.recycled = true; }
    task *parent() const { return pfx_.parent; }
    static void spawn(task &t);
    static void spawn(task_list &l);
    void spawn_and_wait_for_all(task &t);
    void wait_for_all();
    static void destroy(task &t) { task *p = t.pfx_.parent; delete &t; if (p) p->pfx_.ref.fetch_sub(1); }
    static task *allocate(std::size_t n, alloc_tag t);
    static void *operator new(std::size_t n, alloc_tag t) { pending_tag() = t; sim::NoPreempt np; return ::operator new(n); }   // the runtime's own memory never fails: a task allocated half-way would hang the waiter in real TBB, too
    static void operator delete(void *p, alloc_tag) { ::operator delete(p); }
    static void *operator new(std::size_t n) { pending_tag() = {nullptr, false}; sim::NoPreempt np; return ::operator new(n); }
    static void operator delete(void *p) { ::operator delete(p); }
protected:
    task() { pfx_.parent = pending_tag().parent; pending_tag() = {nullptr, false}; }
private:
    static alloc_tag &pending_tag();
    static void run_one(task *t);
};
class empty_task : public task { public: task *execute() override { return nullptr; } };
class task_list { public: std::vector<task *> v; void push_back(task &t) { sim::NoPreempt np; v.push_back(&t); } bool empty() const { return v.empty(); } void clear() { v.clear(); } };
class task_group_context { public: enum kind_type { isolated, bound }; enum traits_type { default_traits }; task_group_context(kind_type = bound, uintptr_t = 0) {} bool cancel_group_execution() { return false; } bool is_group_execution_cancelled() const { return false; } void reset() {} };

// ------------------------------------------------------------------ ranges
template<typename Value> class blocked_range {
public:
    typedef Value const_iterator; typedef std::size_t size_type;
    blocked_range() : e_(), b_(), g_(1) {}
    blocked_range(Value b, Value e, size_type g = 1) : e_(e), b_(b), g_(g ? g : 1) {}
    blocked_range(blocked_range &r, split) : e_(r.e_), b_(mid(r)), g_(r.g_) { r.e_ = b_; }
    blocked_range(blocked_range &r, proportional_split) : e_(r.e_), b_(mid(r)), g_(r.g_) { r.e_ = b_; }
    const_iterator begin() const { return b_; }
    const_iterator end() const { return e_; }
    size_type size() const { return size_type(e_ - b_); }
    size_type grainsize() const { return g_; }
    bool empty() const { return !(b_ < e_); }
    bool is_divisible() const { return g_ < size(); }
private:
    static Value mid(const blocked_range &r) { return r.b_ + (r.e_ - r.b_) / 2u; }
    Value e_, b_; size_type g_;
};

class simple_partitioner {}; class auto_partitioner {}; class affinity_partitioner {}; class static_partitioner {};

namespace simrt {
template<typename R, typename B> void run_range(R r, const B &body, Group *g) {
    while (r.is_divisible() && !cancelled(g)) {
        bool split_it;
        { sim::NoPreempt np; split_it = sim::task_rng().coin(sim::split_prob()); }
        if (!split_it) break;
        auto right = std::make_shared<R>(r, split());
        submit(Job{[right, body, g] { run_range<R, B>(std::move(*right), body, g); }, g});
    }
    if (!cancelled(g)) body(r);
}
}
template<typename R, typename B> void parallel_for(const R &range, const B &body) {
    if (range.empty()) return;
    simrt::Group g;
    simrt::submit(simrt::Job{[range, body, &g] { simrt::run_range<R, B>(range, body, &g); }, &g});
    simrt::wait(g);
}
template<typename R, typename B> void parallel_for(const R &r, const B &b, const simple_partitioner &) { parallel_for(r, b); }
template<typename R, typename B> void parallel_for(const R &r, const B &b, const auto_partitioner &) { parallel_for(r, b); }
template<typename R, typename B> void parallel_for(const R &r, const B &b, const static_partitioner &) { parallel_for(r, b); }
template<typename R, typename B> void parallel_for(const R &r, const B &b, affinity_partitioner &) { parallel_for(r, b); }
template<typename R, typename B> void parallel_for(const R &r, const B &b, task_group_context &) { parallel_for(r, b); }
template<typename I, typename F> typename std::enable_if<std::is_integral<I>::value>::type parallel_for(I first, I last, const F &f) {
    if (!(first < last)) return;
    parallel_for(blocked_range<I>(first, last), [f](const blocked_range<I> &r) { for (I i = r.begin(); i < r.end(); ++i) f(i); });
}
template<typename I, typename F> typename std::enable_if<std::is_integral<I>::value>::type parallel_for(I first, I last, I step, const F &f) {
    if (step <= 0) throw std::invalid_argument("step");
    if (!(first < last)) return;
    I n = (I) ((last - first - 1) / step + 1);
    parallel_for(blocked_range<I>(0, n), [f, first, step](const blocked_range<I> &r) { for (I i = r.begin(); i < r.end(); ++i) f((I) (first + i * step)); });
}
template<typename R, typename T, typename F, typename Red> T parallel_reduce(const R &range, const T &id, const F &f, const Red &red) {
    if (range.empty()) return id;
    std::vector<std::pair<const void *, T>> parts; 
    struct Acc { std::deque<T> v; }; auto acc = std::make_shared<Acc>();
    auto body = [acc, id, f](const R &r) { T x = f(r, id); sim::NoPreempt np; acc->v.push_back(std::move(x)); };
    parallel_for(range, body);
    T t = id; for (auto &x : acc->v) t = red(t, x); return t;
}
template<typename R, typename B> void parallel_reduce(const R &range, B &body) {
    if (range.empty()) return;
    std::vector<R> rs{range};
    for (size_t i = 0; i < rs.size();) { if (rs[i].is_divisible() && sim::task_rng().coin(sim::split_prob()) && rs.size() < 64) { R right(rs[i], split()); rs.insert(rs.begin() + (long) i + 1, right); } else ++i; }
    std::vector<std::unique_ptr<B>> bs; for (size_t i = 1; i < rs.size(); ++i) bs.emplace_back(new B(body, split()));
    parallel_for(size_t(0), rs.size(), [&](size_t i) { if (i) (*bs[i - 1])(rs[i]); else body(rs[0]); });
    for (auto &b : bs) body.join(*b);
}
template<typename F0, typename F1> void parallel_invoke(const F0 &a, const F1 &b) {
    parallel_for(0, 2, [&](int i) { if (i) b(); else a(); });
}
template<typename F0, typename F1, typename F2, typename... Fs> void parallel_invoke(const F0 &a, const F1 &b, const F2 &c, const Fs &... fs) {
    std::vector<std::function<void()>> v{a, b, c, fs...};
    parallel_for(size_t(0), v.size(), [&](size_t i) { v[i](); });
}
template<typename It, typename Cmp> void parallel_sort(It b, It e, const Cmp &c) {
    sim::sync_point();
    auto n = e - b; auto m = n / 2;
    if (n > 8) {
        parallel_for(0, 2, [&](int i) { if (i) std::sort(b + m, e, c); else std::sort(b, b + m, c); });
        std::inplace_merge(b, b + m, e, c);
    } else std::sort(b, e, c);
}
template<typename It> void parallel_sort(It b, It e) { parallel_sort(b, e, std::less<typename std::iterator_traits<It>::value_type>()); }
template<typename C> auto parallel_sort(C &c) -> decltype(c.begin(), void()) { parallel_sort(c.begin(), c.end()); }

class task_group {
    simrt::Group g_;
public:
    template<typename F> void run(const F &f) { F c = f; simrt::submit(simrt::Job{[c] { c(); }, &g_}); }
    void wait() { simrt::wait(g_); }
    template<typename F> void run_and_wait(const F &f) { run(f); wait(); }
    void cancel() { g_.cancelled = true; }
};

// ------------------------------------------------------------------ thread-specific storage
enum ets_key_usage_type { ets_key_per_instance, ets_no_key, ets_suspend_aware };
template<typename T> class cache_aligned_allocator : public std::allocator<T> {
public:
    template<typename U> struct rebind { typedef cache_aligned_allocator<U> other; };
    cache_aligned_allocator() {} template<typename U> cache_aligned_allocator(const cache_aligned_allocator<U> &) {}
};
template<typename T> class scalable_allocator : public std::allocator<T> {
public:
    template<typename U> struct rebind { typedef scalable_allocator<U> other; };
    scalable_allocator() {} template<typename U> scalable_allocator(const scalable_allocator<U> &) {}
};
template<typename T> class tbb_allocator : public std::allocator<T> { public: template<typename U> struct rebind { typedef tbb_allocator<U> other; }; tbb_allocator() {} template<typename U> tbb_allocator(const tbb_allocator<U> &) {} };

template<typename T, typename Alloc = cache_aligned_allocator<T>, ets_key_usage_type K = ets_no_key>
class enumerable_thread_specific {
    struct Node { int tid; typename std::aligned_storage<sizeof(T), alignof(T)>::type mem; bool ready = false; T *get() { return reinterpret_cast<T *>(&mem); } };
    std::list<Node> l_;
    std::function<void(void *)> make_;
public:
    typedef T value_type; typedef T &reference; typedef const T &const_reference; typedef std::size_t size_type;
    enumerable_thread_specific() : make_([](void *p) { new(p) T(); }) {}
    template<typename F, typename = decltype(std::declval<F &>()())> explicit enumerable_thread_specific(F f) : make_([f](void *p) mutable { new(p) T(f()); }) {}
    template<typename A, typename = typename std::enable_if<std::is_constructible<T, A &>::value && !std::is_same<typename std::decay<A>::type, enumerable_thread_specific>::value>::type, typename = void>
    enumerable_thread_specific(A &&a) { typename std::decay<A>::type c(std::forward<A>(a)); make_ = [c](void *p) mutable { new(p) T(c); }; }
    template<typename A, typename B, typename... R> enumerable_thread_specific(A &&a, B &&b, R &&... r) { make_ = [=](void *p) { new(p) T(a, b, r...); }; }
    enumerable_thread_specific(const enumerable_thread_specific &o) : make_(o.make_) { for (auto &n : const_cast<enumerable_thread_specific &>(o).l_) { l_.emplace_back(); l_.back().tid = n.tid; new(&l_.back().mem) T(*n.get()); l_.back().ready = true; } }
    ~enumerable_thread_specific() { for (auto &n : l_) if (n.ready) n.get()->~T(); }
    reference local() { bool e; return local(e); }
    reference local(bool &exists) {
        int me = simrt::worker_index(); Node *n = nullptr;
        { sim::NoPreempt np; for (auto &x : l_) if (x.tid == me) { n = &x; break; }
          exists = n != nullptr;
          if (!n) { l_.emplace_back(); n = &l_.back(); n->tid = me; } }
        if (!n->ready) { make_(&n->mem); n->ready = true; }     // user constructor: preemptible
        return *n->get();
    }
    void clear() { for (auto &n : l_) if (n.ready) n.get()->~T(); l_.clear(); }
    size_type size() const { return l_.size(); }
    bool empty() const { return l_.empty(); }
    template<typename V> class It {          // iterator and const_iterator convert into each other, as in TBB
        typedef typename std::list<Node>::iterator LI; LI i_;
        template<typename> friend class It;
    public:
        typedef std::forward_iterator_tag iterator_category; typedef V value_type; typedef std::ptrdiff_t difference_type; typedef V *pointer; typedef V &reference;
        It() {} It(LI i) : i_(i) {} template<typename W> It(const It<W> &o) : i_(o.i_) {} V &operator*() const { return *i_->get(); } V *operator->() const { return &**this; }
        It &operator++() { ++i_; return *this; } It operator++(int) { It o = *this; ++i_; return o; }
        template<typename W> bool operator==(const It<W> &o) const { return i_ == o.i_; } template<typename W> bool operator!=(const It<W> &o) const { return i_ != o.i_; }
    };
    typedef It<T> iterator; typedef It<const T> const_iterator;
    iterator begin() { return iterator(l_.begin()); } iterator end() { return iterator(l_.end()); }
    const_iterator begin() const { return const_iterator(const_cast<std::list<Node> &>(l_).begin()); } const_iterator end() const { return const_iterator(const_cast<std::list<Node> &>(l_).end()); }
    template<typename F> T combine(F f) { auto i = begin(); if (i == end()) return local(); T r = *i; for (++i; i != end(); ++i) r = f(r, *i); return r; }
    template<typename F> void combine_each(F f) { for (auto &x : *this) f(x); }
};
template<typename T> class combinable {
    enumerable_thread_specific<T> e_;
public:
    combinable() {} template<typename F> explicit combinable(F f) : e_(f) {}
    T &local() { return e_.local(); } template<typename F> T combine(F f) { return e_.combine(f); } template<typename F> void combine_each(F f) { e_.combine_each(f); } void clear() { e_.clear(); }
};

// ------------------------------------------------------------------ locks
class spin_mutex {
    bool locked_ = false;
public:
    spin_mutex() {} spin_mutex(const spin_mutex &) = delete; spin_mutex &operator=(const spin_mutex &) = delete;
    void lock() { sim::sync_point(); sim::NoPreempt np; if (locked_) { sim::probe("spin-mutex-contended"); sim::block_until([this] { return !locked_; }, "spin_mutex"); } locked_ = true; }
    bool try_lock() { sim::sync_point(); sim::NoPreempt np; if (locked_) return false; locked_ = true; return true; }
    void unlock() { { sim::NoPreempt np; if (!locked_) sim::violation("unlock-not-locked", "a spin_mutex that is not locked is unlocked"); locked_ = false; } sim::sync_point(); }
    class scoped_lock {
        spin_mutex *m_ = nullptr;
    public:
        scoped_lock() {} explicit scoped_lock(spin_mutex &m) { acquire(m); }
        ~scoped_lock() { if (m_) release(); }
        void acquire(spin_mutex &m) { m.lock(); m_ = &m; }
        bool try_acquire(spin_mutex &m) { bool r = m.try_lock(); if (r) m_ = &m; return r; }
        void release() { m_->unlock(); m_ = nullptr; }
    };
    static const bool is_rw_mutex = false, is_recursive_mutex = false, is_fair_mutex = false;
};
typedef spin_mutex mutex; typedef spin_mutex queuing_mutex;
class recursive_mutex {
    int owner_ = -1, depth_ = 0;
public:
    void lock() { sim::sync_point(); sim::NoPreempt np; int me = sim::self(); if (owner_ != me) { sim::block_until([this] { return owner_ < 0; }, "recursive_mutex"); owner_ = me; } ++depth_; }
    bool try_lock() { sim::sync_point(); sim::NoPreempt np; int me = sim::self(); if (owner_ >= 0 && owner_ != me) return false; owner_ = me; ++depth_; return true; }
    void unlock() { { sim::NoPreempt np; if (--depth_ == 0) owner_ = -1; } sim::sync_point(); }
    class scoped_lock { recursive_mutex *m_ = nullptr; public: scoped_lock() {} explicit scoped_lock(recursive_mutex &m) { m.lock(); m_ = &m; } ~scoped_lock() { if (m_) m_->unlock(); } bool try_acquire(recursive_mutex &m) { bool r = m.try_lock(); if (r) m_ = &m; return r; } void acquire(recursive_mutex &m) { m.lock(); m_ = &m; } void release() { m_->unlock(); m_ = nullptr; } };
};
template<typename T> class atomic : public std::atomic<T> { public: atomic() {} atomic(T v) : std::atomic<T>(v) {} T operator=(T v) { this->store(v); return v; } T fetch_and_store(T v) { return this->exchange(v); } T compare_and_swap(T n, T c) { this->compare_exchange_strong(c, n); return c; } T fetch_and_add(T v) { return this->fetch_add(v); } T fetch_and_increment() { return this->fetch_add(1); } T fetch_and_decrement() { return this->fetch_sub(1); } };

// ------------------------------------------------------------------ concurrent_vector
template<typename T, typename A = cache_aligned_allocator<T>>
class concurrent_vector {
    // segments of doubling size, like the original: stable addresses, zero-filled memory,
    // size() may count elements whose constructor has not run yet
    enum { NSEG = 48, FIRST = 8 };
    T *seg_[NSEG]; std::size_t size_ = 0;
    static std::size_t seg_cap(int s) { return s == 0 ? FIRST : (std::size_t) FIRST << (s - 1); }
    static std::pair<int, std::size_t> loc(std::size_t i) { int s = 0; std::size_t b = 0; while (i >= b + seg_cap(s)) { b += seg_cap(s); ++s; } return {s, i - b}; }
    void ensure(std::size_t n) {   // memory for indices < n
        std::size_t b = 0;
        for (int s = 0; b < n; ++s) { if (!seg_[s]) { seg_[s] = (T *) ::operator new(seg_cap(s) * sizeof(T), std::align_val_t(alignof(T) > 16 ? alignof(T) : 16)); std::memset((void *) seg_[s], 0, seg_cap(s) * sizeof(T)); } b += seg_cap(s); }
    }
    T *ptr(std::size_t i) const { auto l = loc(i); return seg_[l.first] + l.second; }
    void drop() { for (std::size_t i = size_; i-- > 0;) ptr(i)->~T(); for (auto &s : seg_) if (s) { ::operator delete((void *) s, std::align_val_t(alignof(T) > 16 ? alignof(T) : 16)); s = nullptr; } size_ = 0; }
public:
    template<typename V> class iter {
        friend class concurrent_vector;
        template<typename W> friend class iter;
        const concurrent_vector *v_; std::size_t i_;
    public:
        typedef std::random_access_iterator_tag iterator_category; typedef typename std::remove_cv<V>::type value_type; typedef std::ptrdiff_t difference_type; typedef V *pointer; typedef V &reference;
        iter() : v_(nullptr), i_(0) {} iter(const concurrent_vector *v, std::size_t i) : v_(v), i_(i) {}
        template<typename W, typename = typename std::enable_if<std::is_convertible<W *, V *>::value>::type> iter(const iter<W> &o) : v_(o.v_), i_(o.i_) {}
        V &operator*() const { sim::NoPreempt np; return *v_->ptr(i_); } V *operator->() const { return &**this; } V &operator[](std::ptrdiff_t d) const { return *(*this + d); }
        iter &operator++() { ++i_; return *this; } iter operator++(int) { iter o = *this; ++i_; return o; } iter &operator--() { --i_; return *this; } iter operator--(int) { iter o = *this; --i_; return o; }
        iter &operator+=(std::ptrdiff_t d) { i_ = (std::size_t) ((std::ptrdiff_t) i_ + d); return *this; } iter &operator-=(std::ptrdiff_t d) { return *this += -d; }
        iter operator+(std::ptrdiff_t d) const { iter o = *this; return o += d; } iter operator-(std::ptrdiff_t d) const { iter o = *this; return o -= d; }
        friend iter operator+(std::ptrdiff_t d, const iter &o) { return o + d; }
        std::ptrdiff_t operator-(const iter &o) const { return (std::ptrdiff_t) i_ - (std::ptrdiff_t) o.i_; }
        bool operator==(const iter &o) const { return i_ == o.i_; } bool operator!=(const iter &o) const { return i_ != o.i_; } bool operator<(const iter &o) const { return i_ < o.i_; } bool operator>(const iter &o) const { return i_ > o.i_; } bool operator<=(const iter &o) const { return i_ <= o.i_; } bool operator>=(const iter &o) const { return i_ >= o.i_; }
    };
    typedef T value_type; typedef T &reference; typedef const T &const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef A allocator_type;
    typedef iter<T> iterator; typedef iter<const T> const_iterator; typedef std::reverse_iterator<iterator> reverse_iterator; typedef std::reverse_iterator<const_iterator> const_reverse_iterator;
    template<typename I> struct range_t : blocked_range<I> { range_t(I b, I e, std::size_t g) : blocked_range<I>(b, e, g) {} template<typename R> range_t(R &r, split s) : blocked_range<I>(r, s) {} typedef T value_type; typedef T &reference; typedef I iterator; };
    typedef range_t<iterator> range_type; typedef range_t<const_iterator> const_range_type;
    range_type range(std::size_t g = 1) { return range_type(begin(), end(), g); } const_range_type range(std::size_t g = 1) const { return const_range_type(begin(), end(), g); }
    concurrent_vector() { std::memset(seg_, 0, sizeof seg_); }
    explicit concurrent_vector(const A &) : concurrent_vector() {}
    explicit concurrent_vector(size_type n) : concurrent_vector() { grow_by(n); }
    concurrent_vector(size_type n, const T &v) : concurrent_vector() { grow_by(n, v); }
    template<typename I, typename = typename std::iterator_traits<I>::iterator_category> concurrent_vector(I b, I e) : concurrent_vector() { for (; b != e; ++b) push_back(*b); }
    concurrent_vector(std::initializer_list<T> l) : concurrent_vector(l.begin(), l.end()) {}
    concurrent_vector(const concurrent_vector &o) : concurrent_vector() { for (size_type i = 0; i < o.size(); ++i) push_back(o[i]); }
    concurrent_vector(concurrent_vector &&o) : concurrent_vector() { swap(o); }
    ~concurrent_vector() { drop(); }
    concurrent_vector &operator=(const concurrent_vector &o) { if (this != &o) { concurrent_vector c(o); swap(c); } return *this; }
    concurrent_vector &operator=(concurrent_vector &&o) { if (this != &o) { concurrent_vector c(std::move(o)); swap(c); } return *this; }
    void swap(concurrent_vector &o) { std::swap(size_, o.size_); for (int i = 0; i < NSEG; ++i) std::swap(seg_[i], o.seg_[i]); }
    friend void swap(concurrent_vector &a, concurrent_vector &b) { a.swap(b); }
    size_type size() const { sim::sync_point(); return size_; }
    bool empty() const { return size() == 0; }
    size_type capacity() const { size_type c = 0; for (int s = 0; s < NSEG && seg_[s]; ++s) c += seg_cap(s); return c; }
    size_type max_size() const { return (size_type) 1 << 40; }
    void reserve(size_type n) { if (n > max_size()) throw std::length_error("reserve"); sim::NoPreempt np; ensure(n); }
    void shrink_to_fit() {} void compact() {}
    reference operator[](size_type i) { sim::sync_point(); sim::NoPreempt np; if (i >= size_) sim::violation("concurrent_vector-out-of-range", sim::str("index %zu, size %zu", i, size_)); return *ptr(i); }
    const_reference operator[](size_type i) const { sim::sync_point(); sim::NoPreempt np; if (i >= size_) sim::violation("concurrent_vector-out-of-range", sim::str("index %zu, size %zu", i, size_)); return *ptr(i); }
    reference at(size_type i) { sim::sync_point(); if (i >= size_) throw std::out_of_range("concurrent_vector::at"); return *ptr(i); }
    const_reference at(size_type i) const { sim::sync_point(); if (i >= size_) throw std::out_of_range("concurrent_vector::at"); return *ptr(i); }
    reference front() { return (*this)[0]; } const_reference front() const { return (*this)[0]; } reference back() { return (*this)[size_ - 1]; } const_reference back() const { return (*this)[size_ - 1]; }
    iterator begin() { return iterator(this, 0); } iterator end() { return iterator(this, size()); } const_iterator begin() const { return const_iterator(this, 0); } const_iterator end() const { return const_iterator(this, size()); } const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    reverse_iterator rbegin() { return reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    template<typename... Args> iterator emplace_back(Args &&... a) {
        sim::sync_point(); size_type i; T *p;
        { sim::NoPreempt np; ensure(size_ + 1); i = size_++; p = ptr(i); }
        sim::sync_point();          // size() already counts it
        { sim::NoPreempt np; new((void *) p) T(std::forward<Args>(a)...); }
        return iterator(this, i);
    }
    iterator push_back(const T &v) { return emplace_back(v); }
    iterator push_back(T &&v) { return emplace_back(std::move(v)); }
    iterator grow_by(size_type n) { sim::sync_point(); size_type i; { sim::NoPreempt np; ensure(size_ + n); i = size_; size_ += n; } sim::sync_point(); { sim::NoPreempt np; for (size_type k = i; k < i + n; ++k) new((void *) ptr(k)) T(); } return iterator(this, i); }
    iterator grow_by(size_type n, const T &v) { sim::sync_point(); size_type i; { sim::NoPreempt np; ensure(size_ + n); i = size_; size_ += n; } sim::sync_point(); { sim::NoPreempt np; for (size_type k = i; k < i + n; ++k) new((void *) ptr(k)) T(v); } return iterator(this, i); }
    template<typename I, typename = typename std::iterator_traits<I>::iterator_category> iterator grow_by(I b, I e) { size_type i = size_; for (; b != e; ++b) push_back(*b); return iterator(this, i); }
    iterator grow_to_at_least(size_type n) { sim::sync_point(); size_type o; bool g = false; { sim::NoPreempt np; o = size_; if (n > size_) { ensure(n); size_ = n; g = true; } } sim::sync_point(); if (g) { sim::NoPreempt np; for (size_type k = o; k < n; ++k) new((void *) ptr(k)) T(); } return iterator(this, g ? o : (n ? n - 1 : 0)); }
    iterator grow_to_at_least(size_type n, const T &v) { sim::sync_point(); size_type o; bool g = false; { sim::NoPreempt np; o = size_; if (n > size_) { ensure(n); size_ = n; g = true; } } if (g) { sim::NoPreempt np; for (size_type k = o; k < n; ++k) new((void *) ptr(k)) T(v); } return iterator(this, o); }
    void resize(size_type n) { if (n > size_) grow_by(n - size_); else { while (size_ > n) ptr(--size_)->~T(); } }
    void resize(size_type n, const T &v) { if (n > size_) grow_by(n - size_, v); else { while (size_ > n) ptr(--size_)->~T(); } }
    void assign(size_type n, const T &v) { clear(); grow_by(n, v); }
    template<typename I, typename = typename std::iterator_traits<I>::iterator_category> void assign(I b, I e) { clear(); for (; b != e; ++b) push_back(*b); }
    void clear() { while (size_ > 0) ptr(--size_)->~T(); }
    A get_allocator() const { return A(); }
    friend bool operator==(const concurrent_vector &a, const concurrent_vector &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }
    friend bool operator!=(const concurrent_vector &a, const concurrent_vector &b) { return !(a == b); }
};

// ------------------------------------------------------------------ concurrent_unordered_*
template<typename Key, typename Val, typename KeyOf, typename Hash, typename Eq, bool Multi>
class unordered_base {
protected:
    typedef std::list<Val> L;
    L l_; std::multimap<std::size_t, typename L::iterator> idx_; Hash h_; Eq eq_;
    typename L::iterator find_nt(const Key &k) { auto r = idx_.equal_range(h_(k)); for (auto i = r.first; i != r.second; ++i) if (eq_(KeyOf()(*i->second), k)) return i->second; return l_.end(); }
    void copy_from(const unordered_base &o) { for (auto &v : o.l_) { l_.push_back(v); auto it = std::prev(l_.end()); idx_.emplace(h_(KeyOf()(*it)), it); } }
public:
    typedef Key key_type; typedef Val value_type; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef Val &reference; typedef const Val &const_reference; typedef Hash hasher; typedef Eq key_equal;
    typedef typename L::iterator iterator; typedef typename L::const_iterator const_iterator;
    explicit unordered_base(size_type = 8, const Hash &h = Hash(), const Eq &e = Eq()) : h_(h), eq_(e) {}
    unordered_base(const unordered_base &o) : h_(o.h_), eq_(o.eq_) { sim::NoPreempt np; copy_from(o); }
    unordered_base(unordered_base &&o) : h_(o.h_), eq_(o.eq_) { sim::NoPreempt np; l_.swap(o.l_); idx_.swap(o.idx_); }
    unordered_base &operator=(const unordered_base &o) { sim::NoPreempt np; if (this != &o) { l_.clear(); idx_.clear(); copy_from(o); } return *this; }
    unordered_base &operator=(unordered_base &&o) { sim::NoPreempt np; if (this != &o) { l_.clear(); idx_.clear(); l_.swap(o.l_); idx_.swap(o.idx_); } return *this; }
    iterator begin() { sim::sync_point(); return l_.begin(); } iterator end() { return l_.end(); } const_iterator begin() const { sim::sync_point(); return l_.begin(); } const_iterator end() const { return l_.end(); } const_iterator cbegin() const { return l_.begin(); } const_iterator cend() const { return l_.end(); }
    size_type size() const { sim::sync_point(); return l_.size(); } bool empty() const { return l_.empty(); }
    void clear() { sim::NoPreempt np; l_.clear(); idx_.clear(); }
    void reserve(size_type) {} void rehash(size_type) {}
    std::pair<iterator, bool> ins(Val &&v) {
        sim::sync_point(); sim::NoPreempt np;
        auto f = find_nt(KeyOf()(v));
        if (!Multi && f != l_.end()) return {f, false};
        auto pos = f == l_.end() ? l_.end() : std::next(f);
        auto it = l_.insert(pos, std::move(v)); idx_.emplace(h_(KeyOf()(*it)), it); return {it, true};
    }
    iterator find(const Key &k) { sim::sync_point(); sim::NoPreempt np; return find_nt(k); }
    const_iterator find(const Key &k) const { sim::sync_point(); sim::NoPreempt np; return const_cast<unordered_base *>(this)->find_nt(k); }
    size_type count(const Key &k) const { sim::sync_point(); sim::NoPreempt np; size_type n = 0; auto r = idx_.equal_range(h_(k)); for (auto i = r.first; i != r.second; ++i) if (eq_(KeyOf()(*i->second), k)) ++n; return n; }
    std::pair<iterator, iterator> equal_range(const Key &k) { sim::sync_point(); sim::NoPreempt np; auto b = find_nt(k); 
        // first inserted equal element heads the group; equal elements are adjacent
        while (b != l_.end() && b != l_.begin() && eq_(KeyOf()(*std::prev(b)), k)) --b;
        auto e = b; while (e != l_.end() && eq_(KeyOf()(*e), k)) ++e; return {b, e}; }
    std::pair<const_iterator, const_iterator> equal_range(const Key &k) const { auto r = const_cast<unordered_base *>(this)->equal_range(k); return {r.first, r.second}; }
    iterator unsafe_erase(const_iterator i) { sim::NoPreempt np; auto r = idx_.equal_range(h_(KeyOf()(*i))); for (auto j = r.first; j != r.second; ++j) if (const_iterator(j->second) == i) { idx_.erase(j); break; } return l_.erase(i); }
    size_type unsafe_erase(const Key &k) { sim::NoPreempt np; size_type n = 0; for (auto f = find_nt(k); f != l_.end(); f = find_nt(k)) { unsafe_erase(const_iterator(f)); ++n; } return n; }
    struct range_type { 
        std::vector<iterator> v; std::size_t b, e; typedef iterator It; 
        range_type(std::vector<iterator> x) : v(std::move(x)), b(0), e(v.size() - 1) {} range_type(range_type &r, split) : v(r.v), b((r.b + r.e) / 2), e(r.e) { r.e = b; }
        bool empty() const { return b == e; } bool is_divisible() const { return e - b > 1; } iterator begin() const { return v[b]; } iterator end() const { return v[e]; } };
    typedef range_type const_range_type;
    range_type range() { sim::NoPreempt np; std::vector<iterator> v; for (auto i = l_.begin(); i != l_.end(); ++i) v.push_back(i); v.push_back(l_.end()); return range_type(std::move(v)); }
    range_type range() const { return const_cast<unordered_base *>(this)->range(); }
    Hash hash_function() const { return h_; }
};
namespace simrt {
template<typename P> struct First { const typename std::remove_const<typename P::first_type>::type &operator()(const P &p) const { return p.first; } };
template<typename K> struct Ident { const K &operator()(const K &k) const { return k; } };
}
template<typename K, typename T, typename H, typename E, bool M> class umap_base : public unordered_base<K, std::pair<const K, T>, simrt::First<std::pair<const K, T>>, H, E, M> {
public:
    typedef unordered_base<K, std::pair<const K, T>, simrt::First<std::pair<const K, T>>, H, E, M> base; using base::base; typedef T mapped_type;
    umap_base() {}
    template<typename I, typename = typename std::iterator_traits<I>::iterator_category> umap_base(I b, I e) { for (; b != e; ++b) this->ins(typename base::value_type(*b)); }
    void swap(umap_base &o) { sim::NoPreempt np; this->l_.swap(o.l_); this->idx_.swap(o.idx_); }
};
template<typename K, typename T, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = void>
class concurrent_unordered_map : public umap_base<K, T, H, E, false> {
public:
    typedef umap_base<K, T, H, E, false> base; using base::base; concurrent_unordered_map() {}
    template<typename V> std::pair<typename base::iterator, bool> insert(V &&v) { return this->ins(typename base::value_type(std::forward<V>(v))); }
    std::pair<typename base::iterator, bool> insert(const typename base::value_type &v) { return this->ins(typename base::value_type(v)); }
    template<typename... X> std::pair<typename base::iterator, bool> emplace(X &&... x) { return this->ins(typename base::value_type(std::forward<X>(x)...)); }
    template<typename I, typename = typename std::iterator_traits<I>::iterator_category> void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
    T &operator[](const K &k) { return this->ins(typename base::value_type(std::piecewise_construct, std::forward_as_tuple(k), std::tuple<>())).first->second; }
    T &at(const K &k) { auto f = this->find(k); if (f == this->end()) throw std::out_of_range("concurrent_unordered_map::at"); return f->second; }
    const T &at(const K &k) const { auto f = this->find(k); if (f == this->end()) throw std::out_of_range("concurrent_unordered_map::at"); return f->second; }
};
template<typename K, typename T, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = void>
class concurrent_unordered_multimap : public umap_base<K, T, H, E, true> {
public:
    typedef umap_base<K, T, H, E, true> base; using base::base; concurrent_unordered_multimap() {}
    template<typename V> typename base::iterator insert(V &&v) { return this->ins(typename base::value_type(std::forward<V>(v))).first; }
    typename base::iterator insert(const typename base::value_type &v) { return this->ins(typename base::value_type(v)).first; }
    template<typename... X> typename base::iterator emplace(X &&... x) { return this->ins(typename base::value_type(std::forward<X>(x)...)).first; }
};
template<typename K, typename H = std::hash<K>, typename E = std::equal_to<K>, typename A = void>
class concurrent_unordered_set : public unordered_base<K, K, simrt::Ident<K>, H, E, false> {
public:
    typedef unordered_base<K, K, simrt::Ident<K>, H, E, false> base; using base::base; concurrent_unordered_set() {}
    std::pair<typename base::iterator, bool> insert(const K &v) { return this->ins(K(v)); }
    template<typename... X> std::pair<typename base::iterator, bool> emplace(X &&... x) { return this->ins(K(std::forward<X>(x)...)); }
    template<typename I, typename = typename std::iterator_traits<I>::iterator_category> void insert(I b, I e) { for (; b != e; ++b) insert(*b); }
};
template<typename T, typename A = cache_aligned_allocator<T>> class concurrent_queue {
    std::deque<T> q_;
public:
    typedef T value_type; typedef std::size_t size_type; concurrent_queue() {}
    concurrent_queue(const concurrent_queue &o) : q_(o.q_) {} concurrent_queue(concurrent_queue &&o) : q_(std::move(o.q_)) {} concurrent_queue &operator=(const concurrent_queue &o) { q_ = o.q_; return *this; } concurrent_queue &operator=(concurrent_queue &&o) { q_ = std::move(o.q_); return *this; }
    void push(const T &v) { sim::sync_point(); sim::NoPreempt np; q_.push_back(v); } void push(T &&v) { sim::sync_point(); sim::NoPreempt np; q_.push_back(std::move(v)); }
    template<typename... X> void emplace(X &&... x) { sim::sync_point(); sim::NoPreempt np; q_.emplace_back(std::forward<X>(x)...); }
    bool try_pop(T &r) { sim::sync_point(); sim::NoPreempt np; if (q_.empty()) return false; r = std::move(q_.front()); q_.pop_front(); return true; }
    bool empty() const { sim::sync_point(); return q_.empty(); } size_type unsafe_size() const { return q_.size(); } void clear() { q_.clear(); }
    typename std::deque<T>::iterator unsafe_begin() { return q_.begin(); } typename std::deque<T>::iterator unsafe_end() { return q_.end(); }
    typename std::deque<T>::const_iterator unsafe_begin() const { return q_.begin(); } typename std::deque<T>::const_iterator unsafe_end() const { return q_.end(); }
};

class task_scheduler_init { public: enum { automatic = -1, deferred = -2 }; task_scheduler_init(int n = automatic, std::size_t = 0) { if (n > 0) sim::set_workers(n); } static int default_num_threads() { return sim::active() ? sim::workers() : 1; } void initialize(int = automatic) {} void terminate() {} bool is_active() const { return true; } };
class global_control { public: enum parameter { max_allowed_parallelism, thread_stack_size }; global_control(parameter, std::size_t) {} static std::size_t active_value(parameter) { return sim::active() ? (std::size_t) sim::workers() : 1; } };
namespace this_task_arena { inline int max_concurrency() { return sim::active() ? sim::workers() : 1; } inline int current_thread_index() { return simrt::worker_index(); } template<typename F> auto isolate(const F &f) -> decltype(f()) { return f(); } }
class task_arena { public: task_arena(int = -1, unsigned = 1) {} template<typename F> auto execute(const F &f) -> decltype(f()) { return f(); } int max_concurrency() const { return this_task_arena::max_concurrency(); } };
template<typename T, size_t N = 1> class aligned_space { typename std::aligned_storage<sizeof(T) * N, alignof(T)>::type mem_; public: T *begin() { return (T *) &mem_; } T *end() { return begin() + N; } };
class tick_count { uint64_t t_ = 0; public: struct interval_t { double s; double seconds() const { return s; } }; static tick_count now() { tick_count t; t.t_ = sim::now_ns(); return t; } friend interval_t operator-(const tick_count &a, const tick_count &b) { return {(double) (a.t_ - b.t_) * 1e-9}; } };
template<typename It, typename B> void parallel_for_each(It b, It e, const B &body) { std::vector<typename std::iterator_traits<It>::value_type> v(b, e); parallel_for(size_t(0), v.size(), [&](size_t i) { body(v[i]); }); }
}
namespace oneapi { namespace tbb = ::tbb; }
