/* Replacement for the ThreadSanitizer runtime: every atomic operation of the instrumented
   code may yield the CPU for a random while, which makes narrow races show up quickly. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <sched.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>

static __thread uint64_t rs;
static uint64_t seq = 88172645463325252ull;
volatile int yield_rate = 8;
static void maybe_yield(void)
{
    if (!rs) rs = __atomic_add_fetch(&seq, 0x9E3779B97F4A7C15ull, __ATOMIC_SEQ_CST) | 1;
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    if (yield_rate && rs % (uint64_t)yield_rate == 0) {
        if ((rs >> 20) % 32 == 0) { struct timespec t = {0, 20000}; nanosleep(&t, NULL); }
        else if ((rs >> 20) % 2) sched_yield();
        else for (volatile int i = 0; i < (int)((rs >> 30) % 400); i++) {}
    }
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *a) { (void)a; } void __tsan_write##n(void *a) { (void)a; } \
    void __tsan_unaligned_read##n(void *a) { (void)a; } void __tsan_unaligned_write##n(void *a) { (void)a; } \
    void __tsan_volatile_read##n(void *a) { (void)a; } void __tsan_volatile_write##n(void *a) { (void)a; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { (void)a; (void)n; }
void __tsan_write_range(void *a, size_t n) { (void)a; (void)n; }
void __tsan_vptr_update(void *a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void *a) { (void)a; }
void __tsan_atomic_thread_fence(int m) { (void)m; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int m) { (void)m; }
#define SC __ATOMIC_SEQ_CST
#define AT(b, T) \
T __tsan_atomic##b##_load(const volatile T *a, int m) { (void)m; maybe_yield(); return __atomic_load_n(a, SC); } \
void __tsan_atomic##b##_store(volatile T *a, T v, int m) { (void)m; maybe_yield(); __atomic_store_n(a, v, SC); } \
T __tsan_atomic##b##_exchange(volatile T *a, T v, int m) { (void)m; maybe_yield(); return __atomic_exchange_n(a, v, SC); } \
T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int m) { (void)m; maybe_yield(); return __atomic_fetch_add(a, v, SC); } \
T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int m) { (void)m; maybe_yield(); return __atomic_fetch_sub(a, v, SC); } \
T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int m) { (void)m; maybe_yield(); return __atomic_fetch_or(a, v, SC); } \
T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int m) { (void)m; maybe_yield(); return __atomic_fetch_and(a, v, SC); } \
T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int m) { (void)m; maybe_yield(); return __atomic_fetch_xor(a, v, SC); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; maybe_yield(); return __atomic_compare_exchange_n(a, e, v, 0, SC, SC); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; maybe_yield(); return __atomic_compare_exchange_n(a, e, v, 0, SC, SC); } \
T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T e, T v, int m, int f) { (void)m; (void)f; maybe_yield(); __atomic_compare_exchange_n(a, &e, v, 0, SC, SC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
