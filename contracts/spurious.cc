// Native runs: waits end spuriously now and then, and lock acquisitions yield, which gives rare interleavings a chance.
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <cstdint>
static uint32_t seed = 12345;
__attribute__((no_sanitize("thread"))) static uint32_t Rnd() {
  seed = seed * 1664525u + 1013904223u;
  return seed >> 16;
}
template <class F> static F Real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static const auto real = Real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  if (Rnd() % 4 == 0) {
    pthread_mutex_unlock(m);
    sched_yield();
    pthread_mutex_lock(m);
    return 0;
  }
  return real(c, m);
}

// Atomic loads and stores (as ThreadSanitizer makes them) yield now and then, so that updates made of both interleave.
#define VERIF_ATOMIC(N, T)                                                                   \
  extern "C" T __tsan_atomic##N##_load(const volatile T* p, int mo) {                        \
    static const auto real = Real<T (*)(const volatile T*, int)>("__tsan_atomic" #N "_load"); \
    if (Rnd() % 8 == 0) sched_yield();                                                       \
    return real(p, mo);                                                                      \
  }                                                                                          \
  extern "C" void __tsan_atomic##N##_store(volatile T* p, T v, int mo) {                     \
    static const auto real = Real<void (*)(volatile T*, T, int)>("__tsan_atomic" #N "_store"); \
    if (Rnd() % 2 == 0) sched_yield();                                                       \
    real(p, v, mo);                                                                          \
  }
#ifdef __SANITIZE_THREAD__
VERIF_ATOMIC(64, uint64_t)
VERIF_ATOMIC(32, uint32_t)
#endif
