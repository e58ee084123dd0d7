// Native replay of a multithreaded harness: the harness is compiled with clang's thread sanitizer instrumentation, whose
// calls land here instead of in its library; sx_omp.hpp says which logical thread runs.
#include <array>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unordered_map>
extern "C" void sx_assert(int c, const char* label);
namespace sx_omp { extern void* frame; }
static int thr = 0, locked = 0, initialising = 0;
static auto& table() { static auto* t = new std::unordered_map<uintptr_t, std::array<uint32_t, 4>>(); return *t; }
static void track(const void* p, size_t n, bool write) {
    if (!thr || initialising) return;
    const uintptr_t a = (uintptr_t)p, top = (uintptr_t)sx_omp::frame, tls = (uintptr_t)__builtin_thread_pointer();
    if (a < top && a + (8u << 20) > top) return;  // the thread's own stack
    if (a < tls && a + (64u << 10) > tls) return;
    const uint32_t me = 1u << (thr - 1);
    for (size_t i = 0; i < n; ++i) {
        auto& x = table()[a + i];
        const bool clash = locked ? ((x[1] & ~me) || (write && (x[0] & ~me))) : (((x[1] | x[3]) & ~me) || (write && ((x[0] | x[2]) & ~me)));
        x[(locked ? 2 : 0) + write] |= me;
        if (clash) sx_assert(0, write ? "data race: another thread accesses what this one writes" : "data race: another thread writes what this one reads");
    }
}
// memory is not used twice, so that a block one thread freed is not taken for the next one's
void* operator new(size_t n) { return calloc(1, n ? n : 1); }
void operator delete(void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
extern "C" {
extern char __libc_single_threaded;
void sx_thread(int t) { __libc_single_threaded = 0; thr = t > 0 ? t : 0; if (t < 0) { table().clear(); locked = 0; } }
void sx_lock(int on) { locked = on; }
int __cxa_guard_acquire(long long* g) { if (*(char*)g) return 0; ++initialising; return 1; }
void __cxa_guard_release(long long* g) { *(char*)g = 1; --initialising; }
void __cxa_guard_abort(long long*) { --initialising; }
int pthread_mutex_lock(void*) { sx_lock(1); return 0; }
int pthread_mutex_trylock(void*) { sx_lock(1); return 0; }
int pthread_mutex_unlock(void*) { sx_lock(0); return 0; }
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(N) void __tsan_read##N(void* p) { track(p, N, false); } void __tsan_write##N(void* p) { track(p, N, true); } \
  void __tsan_unaligned_read##N(void* p) { track(p, N, false); } void __tsan_unaligned_write##N(void* p) { track(p, N, true); } \
  void __tsan_read_write##N(void* p) { track(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { track(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { track(p, n, false); }
void __tsan_write_range(void* p, size_t n) { track(p, n, true); }
void __tsan_vptr_read(void** p) { track(p, 8, false); }
void __tsan_vptr_update(void** p, void*) { track(p, 8, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { track(s, n, false); track(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { track(s, n, false); track(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { track(d, n, true); return memset(d, c, n); }
}
