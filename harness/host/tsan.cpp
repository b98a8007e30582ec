// Run-time for code compiled with -fsanitize=thread: every memory access and atomic
// operation of the code under test is a scheduling point of the simulation.
#include <sched.h>
#include <cstring>
#include <pthread.h>
#include "sim.h"
using namespace sim;
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned a32; typedef unsigned long a64; typedef __int128 a128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void*) { memPoint(); } void __tsan_write##N(void*) { memPoint(); } void __tsan_read_write##N(void*) { memPoint(); } \
 void __tsan_unaligned_read##N(void*) { memPoint(); } void __tsan_unaligned_write##N(void*) { memPoint(); } void __tsan_unaligned_read_write##N(void*) { memPoint(); } \
 void __tsan_volatile_read##N(void*) { memPoint(); } void __tsan_volatile_write##N(void*) { memPoint(); } \
 void __tsan_unaligned_volatile_read##N(void*) { memPoint(); } void __tsan_unaligned_volatile_write##N(void*) { memPoint(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, unsigned long) { memPoint(); }
void __tsan_write_range(void*, unsigned long) { memPoint(); }
void __tsan_vptr_update(void**, void*) { memPoint(); }
void __tsan_vptr_read(void**) { memPoint(); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n)
{ char* dd = (char*)d; const char* ss = (const char*)s; for (unsigned long i = 0; i < n; i += 8) { memPoint(); memmove(dd + i, ss + i, n - i < 8 ? n - i : 8); } return d; }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { memPoint(); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { memPoint(); return memset(d, c, n); }
// atomic operations are synchronisation: always a (sync) scheduling point
#define AT(T, N) \
 T __tsan_atomic##N##_load(const volatile T* a, int) { yield(); return *a; } \
 void __tsan_atomic##N##_store(volatile T* a, T v, int) { yield(); *a = v; } \
 T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { yield(); T o = *a; *a = v; return o; } \
 T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { yield(); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { yield(); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { yield(); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { yield(); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { yield(); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { yield(); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { yield(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { yield(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { yield(); T o = *a; if (o == c) *a = v; return o; }
AT(a8, 8) AT(a16, 16) AT(a32, 32) AT(a64, 64) AT(a128, 128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
