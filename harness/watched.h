// Stand-in for the thread sanitizer's run-time library: code compiled with -fsanitize=thread reports every access, atomic operation and
// function entry here, and threads are delayed at chosen places (or at random).  Link without -fsanitize=thread.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" int __asan_address_is_poisoned(void const volatile*) __attribute__((weak));
namespace sched {
static void nap(uint64_t us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; syscall(SYS_nanosleep, &t, nullptr); }
struct Site { std::atomic<uintptr_t> pc{0}; std::atomic<uint32_t> n{0}; std::atomic<uint8_t> kind{0}; };
static Site sites[1 << 14];
static std::atomic<uintptr_t> target{0};
static std::atomic<int> hits{0}, skip{0}; static std::atomic<uint64_t> hold{0};      // delay at the target: how often, how long
static std::atomic<uint32_t> prob{0}, span{0}, seed{1}, ids{0};            // random delays: out of 2^20, up to span microseconds
static std::atomic<bool> watch{false};                                    // record the sites
static thread_local uint64_t rs = 0;
static inline uint64_t rnd() { if (!rs) rs = (seed + 0x9e3779b97f4a7c15ull * (1 + ids++)) | 1; rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void (*entered)(uintptr_t pc) = nullptr;
static inline void at(void* p, int kind) {
    uintptr_t pc = (uintptr_t)p;
    if (watch) {
        uint32_t h = (uint32_t)(pc * 2654435761u) >> 18;
        for (;; h = (h + 1) & ((1 << 14) - 1)) {
            uintptr_t e = 0;
            if (sites[h].pc == pc || sites[h].pc.compare_exchange_strong(e, pc) || e == pc) { sites[h].n++; sites[h].kind = kind; break; }
        }
    }
    if (target.load(std::memory_order_relaxed) == pc && skip-- <= 0 && hits-- > 0) nap(hold);
    uint32_t q = prob.load(std::memory_order_relaxed);
    if (q) { uint64_t r = rnd(); if ((r & 0xfffff) < q) { uint32_t s = span; nap(s ? (r >> 20) % s : 0); } }
}
static void dead(const char* what, const volatile void* a) { fprintf(stderr, "\nERROR: %s at %p\n", what, (void*)a); fflush(stderr); _exit(77); }
static inline void mem(const volatile void* a, int n, int wr) {
    if (__asan_address_is_poisoned && (__asan_address_is_poisoned(a) || __asan_address_is_poisoned((const char*)a + n - 1))) dead(wr ? "write outside live storage" : "read outside live storage", a);
}
}
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (sched::entered) sched::entered((uintptr_t)RA); sched::at(RA, 0); }
void __tsan_func_exit(void*) { sched::at(RA, 1); }
void __tsan_vptr_update(void*, void*) {}
void __tsan_vptr_read(void*) {}
#define M(n) void __tsan_read##n(void* a) { sched::mem(a, n, 0); sched::at(RA, 2); } void __tsan_write##n(void* a) { sched::mem(a, n, 1); sched::at(RA, 3); } \
  void __tsan_unaligned_read##n(void* a) { sched::mem(a, n, 0); sched::at(RA, 2); } void __tsan_unaligned_write##n(void* a) { sched::mem(a, n, 1); sched::at(RA, 3); } \
  void __tsan_volatile_read##n(void* a) { sched::mem(a, n, 0); sched::at(RA, 2); } void __tsan_volatile_write##n(void* a) { sched::mem(a, n, 1); sched::at(RA, 3); } \
  void __tsan_read_write##n(void* a) { sched::mem(a, n, 1); sched::at(RA, 3); } void __tsan_unaligned_read_write##n(void* a) { sched::mem(a, n, 1); sched::at(RA, 3); }
M(1) M(2) M(4) M(8) M(16)
void __tsan_read_range(void* a, long n) { if (n) sched::mem(a, n, 0); sched::at(RA, 2); }
void __tsan_write_range(void* a, long n) { if (n) sched::mem(a, n, 1); sched::at(RA, 3); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define A(bits, T) \
  T __tsan_atomic##bits##_load(const volatile void* p, int) { sched::mem(p, sizeof(T), 0); sched::at(RA, 4); return __atomic_load_n((const volatile T*)p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile void* p, T v, int) { sched::mem(p, sizeof(T), 1); sched::at(RA, 5); __atomic_store_n((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile void* p, T v, int) { sched::at(RA, 5); return __atomic_exchange_n((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile void* p, T v, int) { sched::mem(p, sizeof(T), 1); sched::at(RA, 5); return __atomic_fetch_add((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile void* p, T v, int) { sched::mem(p, sizeof(T), 1); sched::at(RA, 5); return __atomic_fetch_sub((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile void* p, T v, int) { sched::mem(p, sizeof(T), 1); sched::at(RA, 5); return __atomic_fetch_and((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile void* p, T v, int) { sched::mem(p, sizeof(T), 1); sched::at(RA, 5); return __atomic_fetch_or((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile void* p, T v, int) { sched::mem(p, sizeof(T), 1); sched::at(RA, 5); return __atomic_fetch_xor((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile void* p, T v, int) { sched::mem(p, sizeof(T), 1); sched::at(RA, 5); return __atomic_fetch_nand((volatile T*)p, v, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##bits##_compare_exchange_strong(volatile void* p, void* e, T v, int, int) { sched::at(RA, 5); return __atomic_compare_exchange_n((volatile T*)p, (T*)e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  bool __tsan_atomic##bits##_compare_exchange_weak(volatile void* p, void* e, T v, int, int) { sched::at(RA, 5); return __atomic_compare_exchange_n((volatile T*)p, (T*)e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile void* p, T e, T v, int, int) { sched::at(RA, 5); __atomic_compare_exchange_n((volatile T*)p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
}
#undef M
#undef A
