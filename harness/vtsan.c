// Stand-in for the thread sanitizer run time: every memory access of the instrumented library
// becomes a preemption point of the deterministic scheduler.
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
void __sanitizer_cov_trace_pc(void);
#define H __sanitizer_cov_trace_pc()
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { H; }
void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { H; } void __tsan_write##n(void *p) { H; } \
    void __tsan_unaligned_read##n(void *p) { H; } void __tsan_unaligned_write##n(void *p) { H; } \
    void __tsan_read##n##_pc(void *p, void *q) { H; } void __tsan_write##n##_pc(void *p, void *q) { H; } \
    void __tsan_volatile_read##n(void *p) { H; } void __tsan_volatile_write##n(void *p) { H; }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { H; }
void __tsan_write_range(void *p, size_t n) { H; }
#define AT(b, t) \
t __tsan_atomic##b##_load(const volatile t *a, int o) { H; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
void __tsan_atomic##b##_store(volatile t *a, t v, int o) { H; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_exchange(volatile t *a, t v, int o) { H; return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_fetch_add(volatile t *a, t v, int o) { H; return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_fetch_sub(volatile t *a, t v, int o) { H; return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_fetch_and(volatile t *a, t v, int o) { H; return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_fetch_or(volatile t *a, t v, int o) { H; return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_fetch_xor(volatile t *a, t v, int o) { H; return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_fetch_nand(volatile t *a, t v, int o) { H; return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_strong(volatile t *a, t *c, t v, int o, int f) { H; return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##b##_compare_exchange_weak(volatile t *a, t *c, t v, int o, int f) { H; return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
t __tsan_atomic##b##_compare_exchange_val(volatile t *a, t c, t v, int o, int f) { H; __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) {}
