// The instrumentation that gcc -fsanitize=thread emits, served by the simulator instead of libtsan:
// every memory access of the simulated program is a point where its scheduler may preempt.
#include "simrt.h"
#define PC __builtin_return_address(0)
#define ACC(name, sz, wr) \
    extern "C" void __tsan_##name##sz(void *a) { if (fg_hot) fg_access(a, sz, wr, PC); }
#define ALL(sz) ACC(read, sz, false) ACC(write, sz, true) ACC(unaligned_read, sz, false) \
    ACC(unaligned_write, sz, true) ACC(volatile_read, sz, false) ACC(volatile_write, sz, true) \
    ACC(unaligned_volatile_read, sz, false) ACC(unaligned_volatile_write, sz, true)
ALL(1) ALL(2) ALL(4) ALL(8) ALL(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **a, void *) { if (fg_hot) fg_access(a, 8, true, PC); }
void __tsan_vptr_read(void **a) { if (fg_hot) fg_access(a, 8, false, PC); }
void __tsan_read_range(void *a, unsigned long n) { if (fg_hot) for (unsigned long i = 0; i < n; i += 8) fg_access((char *) a + i, 8, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (fg_hot) for (unsigned long i = 0; i < n; i += 8) fg_access((char *) a + i, 8, true, PC); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
}
typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
#define ATOMICS(T, N) \
    extern "C" T __tsan_atomic##N##_load(const volatile T *a, int) { fg_sync_point((const void *) a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    extern "C" void __tsan_atomic##N##_store(volatile T *a, T v, int) { fg_sync_point((const void *) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_exchange(volatile T *a, T v, int) { fg_sync_point((const void *) a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_add(volatile T *a, T v, int) { fg_sync_point((const void *) a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_sub(volatile T *a, T v, int) { fg_sync_point((const void *) a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_and(volatile T *a, T v, int) { fg_sync_point((const void *) a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_or(volatile T *a, T v, int) { fg_sync_point((const void *) a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_xor(volatile T *a, T v, int) { fg_sync_point((const void *) a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_fetch_nand(volatile T *a, T v, int) { fg_sync_point((const void *) a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    extern "C" int __tsan_atomic##N##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { fg_sync_point((const void *) a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    extern "C" int __tsan_atomic##N##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { fg_sync_point((const void *) a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    extern "C" T __tsan_atomic##N##_compare_exchange_val(volatile T *a, T c, T v, int, int) { fg_sync_point((const void *) a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMICS(a8, 8) ATOMICS(a16, 16) ATOMICS(a32, 32) ATOMICS(a64, 64)
