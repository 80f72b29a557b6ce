// Schedule perturbation and observation through linker-wrapped pthread calls.
// Only behaviour POSIX allows is injected: delays, and spurious wake-ups of condition waits.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include "h.h"
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <dirent.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
}
namespace sched {
struct State {
  std::atomic<int> mode{0};            // 0 off, 1 yields, 2 sleeps, 3 mixed
  std::atomic<int> spurious{0};        // percent of waits that return spuriously
  std::atomic<uint64_t> seed{1};
  std::atomic<int> nextid{0};
  std::atomic<long> acquires{0}, waits{0}, spurious_done{0};
  enum { LOG = 1 << 14 };
  std::atomic<unsigned char> log[LOG];
};
inline State& st() { static State* s = new State; return *s; }
struct Tls { int id = -1; uint64_t epoch = 0; uint64_t x = 0; };
inline Tls& tls() { static thread_local Tls t; return t; }
inline uint64_t rnd() {
  Tls& t = tls(); uint64_t sd = st().seed.load(std::memory_order_relaxed);
  if (t.epoch != sd) { t.epoch = sd; t.id = st().nextid.fetch_add(1, std::memory_order_relaxed); t.x = hv::mix(sd + 977 * t.id); }
  return t.x = hv::mix(t.x);
}
inline void nap(int us) { struct timespec ts = {0, us * 1000L}; nanosleep(&ts, 0); }
inline void point() {
  int m = st().mode.load(std::memory_order_relaxed); if (!m) return;
  uint64_t x = rnd(); int k = x & 1023;
  if (m == 1) { if (k < 300) sched_yield(); }
  else if (m == 2) { if (k < 60) nap(1 + (x >> 12) % 120); }
  else { if (k < 200) sched_yield(); else if (k < 240) nap(1 + (x >> 12) % 300); else if (k < 400) { for (volatile int i = 0; i < int((x >> 12) % 2000); i = i + 1) {} } }
}
inline void begin(uint64_t seed, int mode, int spurious) {
  State& s = st(); s.seed.store(seed | 1, std::memory_order_relaxed); s.nextid.store(0, std::memory_order_relaxed); s.acquires.store(0, std::memory_order_relaxed);
  s.spurious.store(spurious, std::memory_order_relaxed); s.mode.store(mode, std::memory_order_relaxed);
}
// returns a hash of the order in which threads acquired locks
inline uint64_t end() {
  State& s = st(); s.mode.store(0); s.spurious.store(0); long n = s.acquires.load(); long m = n < State::LOG ? n : (long)State::LOG; uint64_t h = 99;
  for (long i = 0; i < m; ++i) { unsigned char c = s.log[i].load(std::memory_order_relaxed); h = hv::hash_bytes(&c, 1, h); }
  hv::count("lock_acquisitions", n); hv::count("cond_waits", s.waits.exchange(0)); hv::count("spurious_wakeups_injected", s.spurious_done.exchange(0)); return h;
}
inline void acquired() {
  State& s = st(); if (!s.mode.load(std::memory_order_relaxed)) return;
  rnd(); long i = s.acquires.fetch_add(1, std::memory_order_relaxed); if (i < State::LOG) s.log[i].store((unsigned char)tls().id, std::memory_order_relaxed);
}
inline int nthreads() { DIR* d = opendir("/proc/self/task"); if (!d) return -1; int n = 0; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ++n; closedir(d); return n; }
inline int nfds() { DIR* d = opendir("/proc/self/fd"); if (!d) return -1; int n = 0; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') ++n; closedir(d); return n; }
inline int settle_threads(int base) { int n = nthreads(); for (int i = 0; i < 5000 && n > base; ++i) { nap(1000); n = nthreads(); } return n; }
}  // namespace sched
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { sched::point(); int r = __real_pthread_mutex_lock(m); sched::acquired(); return r; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); sched::point(); return r; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  sched::State& s = sched::st(); int r; s.waits.fetch_add(1, std::memory_order_relaxed);
  int sp = s.mode.load(std::memory_order_relaxed) ? s.spurious.load(std::memory_order_relaxed) : 0;
  if (sp && int(sched::rnd() % 100) < sp) { s.spurious_done.fetch_add(1, std::memory_order_relaxed); __real_pthread_mutex_unlock(m); sched::point(); if (sched::rnd() % 2) sched_yield(); r = __real_pthread_mutex_lock(m); }
  else r = __real_pthread_cond_wait(c, m);
  sched::acquired(); return r;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { sched::point(); return __real_pthread_cond_signal(c); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { sched::point(); return __real_pthread_cond_broadcast(c); }
}
#endif
