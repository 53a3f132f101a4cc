#pragma once
// Perturbs thread schedules: calls at which a thread may lose the processor (locks, reads, decompression) give it
// up at generated moments, so that interleavings that are rare in free running become common.
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <zlib.h>
#include <atomic>
#include <cstdint>

namespace fx {
static std::atomic<unsigned> g_perturb(0);   //!< 0: off; otherwise, one in how many calls gives way
static std::atomic<unsigned> g_perturbAll(0);   //!< seed for threads the library starts; 0: they take no part
static std::atomic<unsigned> g_perturbNext(0);
static thread_local uint64_t t_perturb = 0;
static inline void giveWay()
{
  unsigned n = g_perturb.load(std::memory_order_relaxed);
  if (!n) { return; }
  if (!t_perturb) { unsigned a = g_perturbAll.load(std::memory_order_relaxed); if (!a) { return; } t_perturb = (uint64_t)(a + 7919u * g_perturbNext++) * 2 + 1; }
  t_perturb ^= t_perturb << 13; t_perturb ^= t_perturb >> 7; t_perturb ^= t_perturb << 17;
  if (t_perturb % n) { return; }
  unsigned h = (t_perturb >> 32) & 15;
  if (h < 10) { sched_yield(); } else { timespec t = { 0, (long)(1000 << (h - 10)) }; nanosleep(&t, 0); }
}
//! Makes the calling thread take part
inline void perturbThread(uint64_t seed) { t_perturb = seed * 2 + 1; }
struct Perturb { Perturb(unsigned n, unsigned all = 0) { g_perturb = n; g_perturbAll = all; } ~Perturb() { g_perturb = 0; g_perturbAll = 0; } };
template <class F> inline F nextSym(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept
{
  typedef int (*F)(pthread_mutex_t *); static F f = fx::nextSym<F>("pthread_mutex_lock");
  fx::giveWay(); return f(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept
{
  typedef int (*F)(pthread_mutex_t *); static F f = fx::nextSym<F>("pthread_mutex_unlock");
  int r = f(m); fx::giveWay(); return r;
}
extern "C" int uncompress(Bytef *d, uLongf *n, const Bytef *s, uLong m)
{
  typedef int (*F)(Bytef *, uLongf *, const Bytef *, uLong); static F f = fx::nextSym<F>("uncompress");
  fx::giveWay(); return f(d, n, s, m);
}
extern "C" int compress(Bytef *d, uLongf *n, const Bytef *s, uLong m)
{
  typedef int (*F)(Bytef *, uLongf *, const Bytef *, uLong); static F f = fx::nextSym<F>("compress");
  fx::giveWay(); return f(d, n, s, m);
}
extern "C" int H5Dread(int64_t a, int64_t b, int64_t c, int64_t d, int64_t e, void *p)
{
  typedef int (*F)(int64_t, int64_t, int64_t, int64_t, int64_t, void *); static F f = fx::nextSym<F>("H5Dread");
  fx::giveWay(); int r = f(a, b, c, d, e, p); fx::giveWay(); return r;
}
extern "C" int compress2(Bytef *d, uLongf *n, const Bytef *s, uLong m, int l)
{
  typedef int (*F)(Bytef *, uLongf *, const Bytef *, uLong, int); static F f = fx::nextSym<F>("compress2");
  fx::giveWay(); int r = f(d, n, s, m, l); fx::giveWay(); return r;
}
