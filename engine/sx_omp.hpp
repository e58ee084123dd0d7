// A stand-in for the OpenMP run-time library (the interface clang compiles `#pragma omp` to).  A parallel region is run
// thread after thread; the number of threads and the order in which they run are chosen by the harness (and there by the
// solver), the iterations are dealt out in blocks (static) or in turn (dynamic).  Meanwhile every access to memory is
// attributed to its thread: an access to a byte that another thread of the region accesses, one of them writing, is
// reported as a data race.  A region without data races has the same effect in every interleaving.
#pragma once
#include "sx.hpp"
#include <type_traits>
extern "C" {
void sx_thread(int t);  // the accesses that follow are thread t's (1, 2, ..); 0: the run-time library's; -1: the region is over
void sx_lock(int on);   // within / outside a critical section
}
namespace sx_omp {
inline int threads = 1, backwards = 0, current = 0, depth = 0, outer = -1;
template <typename I> struct Deal { I lower, upper, stride, chunk; };
inline Deal<int64_t> deal{};
inline __attribute__((used)) void* frame = nullptr;
template <typename I>
inline void deal_static(int32_t kind, int32_t* last, I* lower, I* upper, std::make_signed_t<I>* stride, std::make_signed_t<I> incr, std::make_signed_t<I> chunk) {
    const I n = *upper < *lower ? 0 : (*upper - *lower) / incr + 1;  // bounds are included
    if (kind == 33 || kind == 36 || kind == 41) {  // chunks dealt in turn
        const I span = (I)chunk * incr;
        *lower += span * current;
        *upper = *lower + span - incr;
        *stride = span * threads;
        *last = 0;
        return;
    }
    const I size = n / threads, extra = n % threads, first = current * size + ((I)current < extra ? (I)current : extra), count = size + ((I)current < extra);
    *lower += first * incr;
    *upper = count ? *lower + (count - 1) * incr : *lower - incr;
    if (!count && *lower == 0) { *lower = 1; *upper = 0; }
    *stride = n;
    *last = first + count == n;
}
struct Library {  // what the run-time library itself touches is not the program's
    Library() { sx_thread(0); }
    ~Library() { if (depth) sx_thread((outer >= 0 ? outer : current) + 1); }
};
}  // namespace sx_omp
namespace sx_omp {
template <typename F>
__attribute__((noinline)) void as_thread(int t, F&& f) {
#ifndef SX_ENGINE
    frame = __builtin_frame_address(0);
#endif
    depth = 1; current = t;   // regions within are run by this thread alone
    sx_thread(t + 1);
    f(t);
    sx_thread(0);
    depth = 0; current = 0;
}
// f(0), .., f(n-1), each by a thread of its own, in either order
template <typename F>
inline void concurrently(int n, F&& f) {
    for (int t = 0; t < n; ++t) as_thread(backwards ? n - 1 - t : t, f);
    sx_thread(-1);
}
}  // namespace sx_omp
#define SXV void*
extern "C" {
inline __attribute__((used)) int omp_get_thread_num(void) { sx_omp::Library l; return sx_omp::current; }
inline __attribute__((used)) int omp_get_num_threads(void) { sx_omp::Library l; return sx_omp::depth ? sx_omp::threads : 1; }
inline __attribute__((used)) int omp_get_max_threads(void) { sx_omp::Library l; return sx_omp::threads; }
inline __attribute__((used)) int omp_get_num_procs(void) { sx_omp::Library l; return sx_omp::threads; }
inline __attribute__((used)) int omp_in_parallel(void) { sx_omp::Library l; return sx_omp::depth > 0; }
inline __attribute__((used)) void omp_set_num_threads(int) {}
inline __attribute__((used)) double omp_get_wtime(void) { return 0; }
inline __attribute__((used)) int32_t __kmpc_global_thread_num(void*) { sx_omp::Library l; return sx_omp::current; }
inline __attribute__((used, noinline)) void __kmpc_fork_call(void*, int32_t, void* fn, SXV a, SXV b, SXV c, SXV d, SXV e, SXV f, SXV g, SXV h, SXV i, SXV j, SXV k, SXV l, SXV m, SXV n, SXV o, SXV p) {
    typedef void (*Body)(int32_t*, int32_t*, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV, SXV);
    int32_t id = 0, zero = 0;
    sx_thread(0);
    if (sx_omp::depth) {  // a region within a region is run by its thread alone
        const int t = sx_omp::threads, cu = sx_omp::current;
        sx_omp::threads = 1; sx_omp::current = 0; sx_omp::outer = cu;
        sx_thread(cu + 1);
        ((Body)fn)(&id, &zero, a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p);
        sx_thread(0);
        sx_omp::threads = t; sx_omp::current = cu; sx_omp::outer = -1;
        sx_thread(cu + 1);
        return;
    }
    sx_omp::depth = 1;
#ifndef SX_ENGINE
    sx_omp::frame = __builtin_frame_address(0);
#endif
    for (int t = 0; t < sx_omp::threads; ++t) {
        id = sx_omp::current = sx_omp::backwards ? sx_omp::threads - 1 - t : t;
        sx_thread(id + 1);
        ((Body)fn)(&id, &zero, a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p);
        sx_thread(0);
    }
    sx_thread(-1);
    sx_omp::depth = 0; sx_omp::current = 0;
}
inline __attribute__((used)) void __kmpc_for_static_init_8u(void*, int32_t, int32_t kind, int32_t* last, uint64_t* lo, uint64_t* up, int64_t* st, int64_t incr, int64_t chunk) { sx_omp::Library l; sx_omp::deal_static<uint64_t>(kind, last, lo, up, st, incr, chunk); }
inline __attribute__((used)) void __kmpc_for_static_init_4u(void*, int32_t, int32_t kind, int32_t* last, uint32_t* lo, uint32_t* up, int32_t* st, int32_t incr, int32_t chunk) { sx_omp::Library l; sx_omp::deal_static<uint32_t>(kind, last, lo, up, st, incr, chunk); }
inline __attribute__((used)) void __kmpc_for_static_init_8(void*, int32_t, int32_t kind, int32_t* last, uint64_t* lo, uint64_t* up, int64_t* st, int64_t incr, int64_t chunk) { sx_omp::Library l; sx_omp::deal_static<uint64_t>(kind, last, lo, up, st, incr, chunk); }
inline __attribute__((used)) void __kmpc_for_static_init_4(void*, int32_t, int32_t kind, int32_t* last, uint32_t* lo, uint32_t* up, int32_t* st, int32_t incr, int32_t chunk) { sx_omp::Library l; sx_omp::deal_static<uint32_t>(kind, last, lo, up, st, incr, chunk); }
inline __attribute__((used)) void __kmpc_for_static_fini(void*, int32_t) {}
inline __attribute__((used)) void __kmpc_dispatch_init_8u(void*, int32_t, int32_t, uint64_t lo, uint64_t up, int64_t st, int64_t chunk) { sx_omp::Library l; sx_omp::deal = {(int64_t)lo + sx_omp::current * st, (int64_t)up, st, chunk}; }
inline __attribute__((used)) void __kmpc_dispatch_init_8(void*, int32_t, int32_t, int64_t lo, int64_t up, int64_t st, int64_t chunk) { sx_omp::Library l; sx_omp::deal = {lo + sx_omp::current * st, up, st, chunk}; }
inline __attribute__((used)) void __kmpc_dispatch_init_4(void*, int32_t, int32_t, int32_t lo, int32_t up, int32_t st, int32_t chunk) { sx_omp::Library l; sx_omp::deal = {lo + sx_omp::current * st, up, st, chunk}; }
inline __attribute__((used)) void __kmpc_dispatch_init_4u(void*, int32_t, int32_t, uint32_t lo, uint32_t up, int32_t st, int32_t chunk) { sx_omp::Library l; sx_omp::deal = {(int64_t)lo + sx_omp::current * st, (int64_t)up, st, chunk}; }
inline __attribute__((used)) int32_t __kmpc_dispatch_next_8u(void*, int32_t, int32_t* last, uint64_t* lo, uint64_t* up, int64_t* st) {
    sx_omp::Library l; auto& d = sx_omp::deal;
    if (d.lower > d.upper) return 0;
    *lo = *up = d.lower; *st = d.stride; *last = d.lower + d.stride > d.upper;
    d.lower += d.stride * sx_omp::threads;
    return 1;
}
inline __attribute__((used)) int32_t __kmpc_dispatch_next_8(void* l, int32_t g, int32_t* last, int64_t* lo, int64_t* up, int64_t* st) { return __kmpc_dispatch_next_8u(l, g, last, (uint64_t*)lo, (uint64_t*)up, st); }
inline __attribute__((used)) int32_t __kmpc_dispatch_next_4u(void* l, int32_t g, int32_t* last, uint32_t* lo, uint32_t* up, int32_t* st) { sx_omp::Library q; uint64_t a = 0, b = 0; int64_t s = 0; const int r = __kmpc_dispatch_next_8u(l, g, last, &a, &b, &s); if (r) { *lo = (uint32_t)a; *up = (uint32_t)b; *st = (int32_t)s; } return r; }
inline __attribute__((used)) int32_t __kmpc_dispatch_next_4(void* l, int32_t g, int32_t* last, int32_t* lo, int32_t* up, int32_t* st) { return __kmpc_dispatch_next_4u(l, g, last, (uint32_t*)lo, (uint32_t*)up, st); }
inline __attribute__((used)) void __kmpc_dispatch_fini_8u(void*, int32_t) {}
inline __attribute__((used)) void __kmpc_dispatch_fini_8(void*, int32_t) {}
inline __attribute__((used)) void __kmpc_dispatch_fini_4u(void*, int32_t) {}
inline __attribute__((used)) void __kmpc_dispatch_fini_4(void*, int32_t) {}
inline __attribute__((used)) void __kmpc_critical(void*, int32_t, void*) { sx_lock(1); }
inline __attribute__((used)) void __kmpc_end_critical(void*, int32_t, void*) { sx_lock(0); }
inline __attribute__((used)) int32_t __kmpc_reduce_nowait(void*, int32_t, int32_t, size_t, void*, void*, void*) { sx_lock(1); return 1; }
inline __attribute__((used)) void __kmpc_end_reduce_nowait(void*, int32_t, void*) { sx_lock(0); }
inline __attribute__((used)) int32_t __kmpc_reduce(void*, int32_t, int32_t, size_t, void*, void*, void*) { sx_lock(1); return 1; }
inline __attribute__((used)) void __kmpc_end_reduce(void*, int32_t, void*) { sx_lock(0); }
// threads that wait for each other within a region are outside the bound
inline __attribute__((used)) void __kmpc_barrier(void*, int32_t) { sx_omp::Library l; sx_assume(sx_omp::threads == 1); }
inline __attribute__((used)) int32_t __kmpc_single(void*, int32_t) { sx_omp::Library l; sx_assume(sx_omp::threads == 1); return 1; }
inline __attribute__((used)) void __kmpc_end_single(void*, int32_t) {}
inline __attribute__((used)) int32_t __kmpc_master(void*, int32_t) { sx_omp::Library l; return sx_omp::current == 0; }
inline __attribute__((used)) void __kmpc_end_master(void*, int32_t) {}
inline __attribute__((used)) int32_t __kmpc_masked(void*, int32_t, int32_t which) { sx_omp::Library l; return sx_omp::current == which; }
inline __attribute__((used)) void __kmpc_end_masked(void*, int32_t) {}
inline __attribute__((used)) void __kmpc_flush(void*) {}
inline __attribute__((used)) void __kmpc_push_num_threads(void*, int32_t, int32_t) {}
inline __attribute__((used)) void __kmpc_serialized_parallel(void*, int32_t) {}
inline __attribute__((used)) void __kmpc_end_serialized_parallel(void*, int32_t) {}
}
#ifdef SX_ENGINE
#include <pthread.h>
extern "C" {
inline __attribute__((used)) int pthread_mutex_lock(pthread_mutex_t*) noexcept { sx_lock(1); return 0; }
inline __attribute__((used)) int pthread_mutex_trylock(pthread_mutex_t*) noexcept { sx_lock(1); return 0; }
inline __attribute__((used)) int pthread_mutex_unlock(pthread_mutex_t*) noexcept { sx_lock(0); return 0; }
}
#endif
