// Our implementation of the callbacks gcc emits for -fsanitize=thread.
#include "internal.h"
#include <cstdint>
using namespace sim;
typedef unsigned __int128 a128;

static inline void chk(const void *p, size_t n, bool w) {
    shared_access(p, w);
    if (__builtin_expect((uintptr_t) p - g_heap_lo < g_heap_hi - g_heap_lo, 0)) heap_access_slow(p, n, w);
}
#define RD(n) extern "C" void __tsan_read##n(void *p) { event(K_PLAIN); chk(p, n, false); } \
              extern "C" void __tsan_volatile_read##n(void *p) { event(K_ATOMIC); chk(p, n, false); } \
              extern "C" void __tsan_unaligned_read##n(void *p) { event(K_PLAIN); chk(p, n, false); }
#define WR(n) extern "C" void __tsan_write##n(void *p) { event(K_PLAIN); chk(p, n, true); } \
              extern "C" void __tsan_volatile_write##n(void *p) { event(K_ATOMIC); chk(p, n, true); } \
              extern "C" void __tsan_unaligned_write##n(void *p) { event(K_PLAIN); chk(p, n, true); }
RD(1) RD(2) RD(4) RD(8) RD(16)
WR(1) WR(2) WR(4) WR(8) WR(16)
extern "C" void __tsan_read_range(void *p, unsigned long n) { event(K_PLAIN); if (n) chk(p, n, false); }
extern "C" void __tsan_write_range(void *p, unsigned long n) { event(K_PLAIN); if (n) chk(p, n, true); }
extern "C" void __tsan_vptr_update(void **p, void *v) { (void) v; event(K_PLAIN); chk(p, 8, true); }
extern "C" void __tsan_vptr_read(void **p) { event(K_PLAIN); chk(p, 8, false); }
extern "C" void __tsan_func_entry(void *) { event(K_FUNC); }
extern "C" void __tsan_func_exit() {}
extern "C" void __tsan_init() {}
extern "C" void *__tsan_memcpy(void *d, const void *s, unsigned long n) { event(K_PLAIN); if (n) { chk(s, n, false); chk(d, n, true); } return __builtin_memcpy(d, s, n); }
extern "C" void *__tsan_memmove(void *d, const void *s, unsigned long n) { event(K_PLAIN); if (n) { chk(s, n, false); chk(d, n, true); } return __builtin_memmove(d, s, n); }
extern "C" void *__tsan_memset(void *d, int c, unsigned long n) { event(K_PLAIN); if (n) chk(d, n, true); return __builtin_memset(d, c, n); }
extern "C" void __tsan_atomic_thread_fence(int) { event(K_ATOMIC); }
extern "C" void __tsan_atomic_signal_fence(int) {}

namespace sim { void count_fault(const char *); }
static bool spurious() {
    if (!hot.on) return false;
    return sim::fault("cas-weak-spurious", 0.03);
}
#define AT(N, T) \
extern "C" T __tsan_atomic##N##_load(const volatile T *a, int) { event(K_ATOMIC); chk((const void*)a, N/8, false); return *a; } \
extern "C" void __tsan_atomic##N##_store(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); *a = v; } \
extern "C" T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); T o = *a; *a = v; return o; } \
extern "C" T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); T o = *a; *a = (T)(o + v); return o; } \
extern "C" T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); T o = *a; *a = (T)(o - v); return o; } \
extern "C" T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); T o = *a; *a = (T)(o & v); return o; } \
extern "C" T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); T o = *a; *a = (T)(o | v); return o; } \
extern "C" T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); T o = *a; *a = (T)(o ^ v); return o; } \
extern "C" T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); T o = *a; *a = (T)~(o & v); return o; } \
extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); \
    if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); \
    if (*a == *c && !spurious()) { *a = v; return 1; } *c = *a; return 0; } \
extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { event(K_ATOMIC); chk((const void*)a, N/8, true); \
    T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, a128)
