// Deterministic heap used for operator new/delete during a run: fixed address range, slab
// pages per size class, poison on free with delayed reuse, redzones by size rounding, and
// constant-time validation of every instrumented access that falls into it.
#include "internal.h"
#include <cstdlib>
#include <cstdio>
#include <deque>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
uintptr_t g_heap_lo = 1, g_heap_hi = 1;
bool g_heap_check_on = true;
static const uintptr_t BASE = sim::SIMHEAP;
static const size_t TOTAL = sim::SIMHEAP_SZ;
static const size_t PAGE = 1 << 16;
static const size_t NPAGES = TOTAL / PAGE;
struct PageInfo { uint32_t cls; uint32_t head; };   // cls: 1-based slab class, 0xffffffff large cont., 0xfffffffe large head
static PageInfo *pages;
struct Slot { uint32_t size; uint16_t state; uint16_t sut; };     // state 1 live 2 freed; sut: allocated by code under test
static Slot *slots;                                 // one per 16 bytes of heap
static size_t next_page;
static uint8_t fillb = 0;
static bool on = false;
static int64_t live_b = 0, live_n = 0;             // of code under test only
static void **callers;                              // who allocated each block, only with SIM_LEAKS set
static size_t class_size(int c) {
    if (c < 64) return 16 * (size_t) (c + 1);
    return (size_t) 1024 << ((c - 64) + 1);        // 2K..32K
}
static const int NCLS = 64 + 5;
static int class_of(size_t n) {
    if (n <= 1024) return (int) ((n + 15) / 16) - 1;
    int c = 64; size_t s = 2048; while (s < n) { s <<= 1; ++c; } return c;
}
struct Fifo { uintptr_t *v = nullptr; size_t cap = 0, h = 0, n = 0;
    void push(uintptr_t x) { if (n == cap) { size_t nc = cap ? cap * 2 : 64; uintptr_t *w = (uintptr_t *) malloc(nc * 8); for (size_t i = 0; i < n; ++i) w[i] = v[(h + i) % cap]; ::free(v); v = w; cap = nc; h = 0; } v[(h + n++) % cap] = x; }
    uintptr_t pop() { uintptr_t x = v[h]; h = (h + 1) % cap; --n; return x; } };
static Fifo freed[NCLS];
static uintptr_t bump[NCLS], bump_end[NCLS];
static std::map<size_t, std::vector<uintptr_t>> *large_free;

double alloc_fault_rate();
void heap_begin(uint64_t, int fill) {
    if (mmap((void *) BASE, TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("heap mmap"); _exit(4); }
    pages = (PageInfo *) mmap(nullptr, NPAGES * sizeof(PageInfo), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    slots = (Slot *) mmap(nullptr, TOTAL / 16 * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    large_free = new std::map<size_t, std::vector<uintptr_t>>;
    if (getenv("SIM_LEAKS")) callers = (void **) mmap(nullptr, TOTAL / 16 * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fillb = (uint8_t) fill; next_page = 1;
    g_heap_lo = BASE; g_heap_hi = BASE + TOTAL; on = true;
}
void heap_end() { on = false; }
int64_t live_bytes() { return live_b; }
int64_t live_blocks() { return live_n; }
std::string live_list() { std::string r; if (callers) for (size_t i = 0; i < next_page * PAGE / 16; ++i) if (slots[i].state == 1 && slots[i].sut) r += str(" %u@%p", slots[i].size, callers[i]); return r; }

static Slot &slot(uintptr_t p) { return slots[(p - BASE) / 16]; }
static void *halloc(size_t n, size_t al) {
    size_t want = n + 1; if (al > 16) want = (want + al - 1) / al * al;  // at least one byte of tail redzone
    if (want < 16) want = 16;
    uintptr_t p;
    if (want <= 32768) {
        int c = class_of(want);
        if (al > 16) { while (class_size(c) % al) ++c; }
        size_t cs = class_size(c);
        if (freed[c].n > 4096 || freed[c].n * cs > (8u << 20)) p = freed[c].pop();
        else {
            if (bump[c] + cs > bump_end[c]) {
                size_t np = cs > PAGE / 4 ? 4 : 1;
                if (next_page + np > NPAGES) return nullptr;
                bump[c] = BASE + next_page * PAGE; bump_end[c] = bump[c] + np * PAGE;
                for (size_t i = 0; i < np; ++i) { pages[next_page + i].cls = (uint32_t) c + 1; pages[next_page + i].head = (uint32_t) next_page; }
                next_page += np;
            }
            p = bump[c]; bump[c] += cs;
        }
    } else {
        size_t np = (want + PAGE - 1) / PAGE;
        auto it = large_free->find(np);
        if (it != large_free->end() && it->second.size() > 2) { p = it->second.front(); it->second.erase(it->second.begin()); }
        else {
            if (next_page + np > NPAGES) return nullptr;
            p = BASE + next_page * PAGE;
            for (size_t i = 0; i < np; ++i) { pages[next_page + i].cls = i ? 0xffffffffu : 0xfffffffeu; pages[next_page + i].head = (uint32_t) next_page; }
            next_page += np;
        }
    }
    Slot &s = slot(p); s.size = (uint32_t) n; s.state = 1;
    if (n >> 32) s.size = 0xffffffffu;
    memset((void *) p, fillb, n);
    return (void *) p;
}
static bool in_heap(const void *q) { return (uintptr_t) q - BASE < TOTAL && g_heap_lo == BASE; }
static void hfree(void *q) {
    uintptr_t p = (uintptr_t) q;
    Slot &s = slot(p);
    if (s.state != 1) { if (draining()) return; violation("heap-invalid-free", s.state == 2 ? "a block of memory is released twice" : "a pointer that is not the start of a live block is released"); }
    s.state = 2; if (s.sut) { live_b -= s.size; --live_n; }
    PageInfo &pi = pages[(p - BASE) / PAGE];
    if (pi.cls == 0xfffffffeu) {
        size_t np = ((size_t) s.size + 1 + PAGE - 1) / PAGE;
        memset(q, 0xDD, s.size > 4096 ? 4096 : s.size);
        (*large_free)[np].push_back(p);
    } else {
        memset(q, 0xDD, s.size);
        freed[pi.cls - 1].push(p);
    }
}
void heap_access_slow(const void *q, size_t n, bool w) {
    if (!g_heap_check_on || draining()) return;
    uintptr_t p = (uintptr_t) q;
    PageInfo &pi = pages[(p - BASE) / PAGE];
    uintptr_t b;
    if (pi.cls == 0) { violation("heap-wild-access", str("%s of %zu bytes outside any allocation", w ? "write" : "read", n)); }
    if (pi.cls >= 0xfffffffeu) b = BASE + (uintptr_t) pi.head * PAGE;
    else { size_t cs = class_size((int) pi.cls - 1); uintptr_t h = BASE + (uintptr_t) pi.head * PAGE; b = h + (p - h) / cs * cs; }
    Slot &s = slot(b);
    if (s.state == 2) violation("heap-use-after-free", str("%s of %zu bytes at offset %zu of a released block of %u bytes", w ? "write" : "read", n, (size_t) (p - b), s.size));
    if (s.state != 1 || (p - b) + n > s.size) {
        if (s.state == 1 && s.size == 0xffffffffu) return;
        violation("heap-out-of-bounds", str("%s of %zu bytes at offset %zu of a block of %u bytes", w ? "write" : "read", n, (size_t) (p - b), s.size));
    }
}
static void *op_new(size_t n, size_t al, bool nothrow, void *ra) {
    if (on && active()) {
        bool sut = hot.on != 0;      // allocation made by code under test, not by simulator or shim code
        NoPreempt np;
        double r = sut ? alloc_fault_rate() : 0;
        if (r > 0 && fault("alloc-fail", r)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        void *p = n > (4ull << 30) ? nullptr : halloc(n, al);
        if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        Slot &s = slot((uintptr_t) p); s.sut = sut; if (sut) { live_b += s.size; ++live_n; if (callers) callers[((uintptr_t) p - BASE) / 16] = ra; }
        return p;
    }
    void *p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void op_del(void *p) { if (!p) return; if (in_heap(p)) { NoPreempt np; hfree(p); } else ::free(p); }
// a release that states another size than the block has: an object destroyed through a base class without virtual destructor
static void op_del(void *p, size_t n) {
    if (p && in_heap(p) && !draining()) { NoPreempt np; Slot &s = slot((uintptr_t) p); if (s.state == 1 && s.size != 0xffffffffu && s.size != n) violation("heap-wrong-size", str("a block of %u bytes is released as one of %zu bytes", s.size, n)); }
    op_del(p);
}
}
using namespace sim;
void *operator new(size_t n) { return op_new(n, 16, false, __builtin_return_address(0)); }
void *operator new[](size_t n) { return op_new(n, 16, false, __builtin_return_address(0)); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true, __builtin_return_address(0)); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true, __builtin_return_address(0)); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t) a, false, __builtin_return_address(0)); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t) a, false, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { op_del(p); }
void operator delete[](void *p) noexcept { op_del(p); }
void operator delete(void *p, size_t n) noexcept { op_del(p, n); }
void operator delete[](void *p, size_t n) noexcept { op_del(p, n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_del(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_del(p); }
void operator delete(void *p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void *p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_del(p); }
