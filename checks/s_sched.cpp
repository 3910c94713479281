// Baton scheduler: real threads of which exactly one runs; the compiler inserts a scheduling point at every basic
// block of the code under test (-fsanitize-coverage=trace-pc) and a seeded generator decides where the baton moves.
#include "s_world.hpp"
#include <semaphore.h>
#include <pthread.h>
#include <cerrno>
#include <cstdlib>
#include <malloc.h>
#include <thread>
#include <new>
using namespace sim;
extern "C" char __executable_start;
struct Sched { int n = 0; sem_t sem[8], fin; bool done[8]; Rng r{1}; long countdown = 0, points = 0, switches = 0; double lo = 100, hi = 1e5; uint64_t sig = 1469598103934665603ull; };
static Sched S; static thread_local int t_id = -1; static thread_local int t_hold = 0;
static void refill() { S.countdown = long(S.r.logu(S.lo, S.hi)) + 1; }
static void pass(bool leaving) { int c = 0; for (int i = 0; i < S.n; ++i) c += !S.done[i]; if (!c) { sem_post(&S.fin); return; } int k = int(S.r.next() % c), t = -1; for (int i = 0; i < S.n; ++i) if (!S.done[i] && k-- == 0) { t = i; break; }
    refill(); if (t == t_id && !leaving) return; ++S.switches; S.sig = (S.sig ^ uint64_t(t)) * 1099511628211ull; int me = t_id; sem_post(&S.sem[t]); if (!leaving) while (sem_wait(&S.sem[me]) && errno == EINTR) {} }
extern "C" void __sanitizer_cov_trace_pc() { if (t_id < 0) return; ++S.points; if (--S.countdown > 0 || t_hold) return; S.sig = (S.sig ^ uint64_t((char*)__builtin_return_address(0) - &__executable_start)) * 1099511628211ull; pass(false); }
void sched_yield_now() { if (t_id >= 0 && !t_hold) pass(false); }
// one-time initialisations and locks of the code under test must not be left holding the baton
extern "C" { int __real___cxa_guard_acquire(long long*); void __real___cxa_guard_release(long long*); void __real___cxa_guard_abort(long long*);
int __wrap___cxa_guard_acquire(long long* g) { ++t_hold; int r = __real___cxa_guard_acquire(g); if (!r) --t_hold; return r; }
void __wrap___cxa_guard_release(long long* g) { __real___cxa_guard_release(g); --t_hold; } void __wrap___cxa_guard_abort(long long* g) { __real___cxa_guard_abort(g); --t_hold; }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (t_id < 0) return __real_pthread_mutex_lock(m); for (;;) { int r = pthread_mutex_trylock(m); if (r != EBUSY) return r; if (t_hold) return __real_pthread_mutex_lock(m); pass(false); } }
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) { ++t_hold; int r = __real_pthread_once(o, f); --t_hold; return r; }
// allocator seam: while it refuses, allocations made inside library calls fail
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); }
SIM_TLS bool g_refuse = false; long g_refused = 0, g_windows = 0; size_t g_refused_size = 0;
static bool refuse(size_t n) { if (!g_refuse || g_lib <= 0) return false; if (!g_refused++) g_refused_size = n; return true; }
extern "C" { void* __wrap_malloc(size_t n) { return refuse(n) ? nullptr : __real_malloc(n); } void* __wrap_calloc(size_t a, size_t b) { return refuse(a * b) ? nullptr : __real_calloc(a, b); } void* __wrap_realloc(void* p, size_t n) { return refuse(n) ? nullptr : __real_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return refuse(n) ? nullptr : __real_aligned_alloc(a, n); } int __wrap_posix_memalign(void** p, size_t a, size_t n) { return refuse(n) ? ENOMEM : __real_posix_memalign(p, a, n); } }
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; } void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }

SchedOut sched_run(uint64_t seed, int scale, std::vector<std::function<void()>> tasks) { S.n = int(tasks.size()); S.r = Rng(seed); static const double L[] = {50, 5, 2000, 20}, H[] = {2e4, 300, 3e5, 3000}; S.lo = L[scale & 3]; S.hi = H[scale & 3]; S.points = S.switches = 0; sem_init(&S.fin, 0, 0); for (int i = 0; i < S.n; ++i) { sem_init(&S.sem[i], 0, 0); S.done[i] = false; }
    std::vector<std::thread> th; for (int i = 0; i < S.n; ++i) th.emplace_back([i, &tasks] { while (sem_wait(&S.sem[i]) && errno == EINTR) {} t_id = i; tasks[i](); t_id = i; S.done[i] = true; t_hold = 0; pass(true); t_id = -1; });
    t_id = -1; pass(true); while (sem_wait(&S.fin) && errno == EINTR) {} for (auto& t : th) t.join(); SchedOut o; o.points = S.points; o.switches = S.switches; o.sig = S.sig; return o; }
