#include "fibers.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include "verif.h"
#ifdef __SANITIZE_THREAD__
#include <sanitizer/tsan_interface.h>
#define NS __attribute__((no_sanitize_thread))
#else
#define NS
#define __tsan_acquire(p)
#define __tsan_release(p)
static void* __tsan_get_current_fiber() { return nullptr; }
static void* __tsan_create_fiber(unsigned) { return nullptr; }
static void __tsan_destroy_fiber(void*) {}
static void __tsan_switch_to_fiber(void*, unsigned) {}
#endif
namespace {
enum State { FREE, RUN, LOCK, COND, JOIN, IDLE, SLEEP, DONE };
constexpr int kMax = 64;
constexpr size_t kStack = 256 * 1024;
struct Thread {
  State state;
  ucontext_t ctx;
  char* stack;
  void* fiber;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool mine, detached, joined, timed_out;
  const void* waits;     // mutex, condition variable
  pthread_mutex_t* mutex;
  int64_t deadline;      // -1: none
  int join;
  uint64_t born, last;   // step of creation and of the last use of a mutex
};
Thread th[kMax];
int cur = -1;
uint64_t rnd, steps, key;
int64_t now_;
uint32_t stick, adv, spur;
bool next_mine;
struct Held { const void* m; int owner; } held[64];
struct Dead { const char* p; size_t n; } dead[8];
int dead_n;
struct Span { uint64_t born, last; } spans[4096];
uint32_t spans_n;

template <class F> NS F Real(F& f, const char* n) { if (!f) f = (F)dlsym(RTLD_NEXT, n); return f; }
NS uint64_t Next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd * 2685821657736338717ULL >> 16; }
NS int Owner(const void* m) { for (auto& h : held) if (h.m == m) return h.owner; return -1; }
NS void Hold(const void* m, int o) {
  for (auto& h : held) if (!h.m) { h.m = m; h.owner = o; return; }
  verif_check(false, "too many mutexes");
}
NS void Drop(const void* m) { for (auto& h : held) if (h.m == m) h.m = nullptr; }
NS void Use(const void* p) {
  for (int i = 0; i < dead_n; i++)
    if ((const char*)p >= dead[i].p && (const char*)p < dead[i].p + dead[i].n) verif_check(false, "nothing is used after destruction");
  if (cur >= 0) th[cur].last = steps;
}
NS bool Ready(const Thread& t) {
  switch (t.state) {
    case RUN: return true;
    case LOCK: return Owner(t.waits) < 0;
    case COND: case SLEEP: return t.deadline >= 0 && t.deadline <= now_;
    case JOIN: return th[t.join].state == DONE;
    default: return false;
  }
}
NS int64_t Deadline() {
  int64_t d = -1;
  for (auto& t : th)
    if ((t.state == COND || t.state == SLEEP) && t.deadline > now_ && (d < 0 || t.deadline < d)) d = t.deadline;
  return d;
}
NS int Pick() {
  for (;;) {
    if (spur && Next() % spur == 0) {
      int n = 0;
      for (auto& t : th) n += t.state == COND;
      if (n) {
        n = (int)(Next() % (uint64_t)n);
        for (auto& t : th)
          if (t.state == COND && n-- == 0) { t.timed_out = false; t.state = LOCK; t.waits = t.mutex; }
      }
    }
    if (Next() % adv == 0) {
      const auto d = Deadline();
      if (d >= 0) now_ = Next() % 4 ? d : now_ + (int64_t)(Next() % (uint64_t)(d - now_ + 2));
    }
    int n = 0;
    for (auto& t : th) n += Ready(t);
    if (n == 0) {
      const auto d = Deadline();
      if (d >= 0) { now_ = d; continue; }
      for (int i = 0; i < kMax; i++) if (th[i].state == IDLE) { th[i].state = RUN; return i; }
      return -1;
    }
    int i;
    if (cur >= 0 && th[cur].state == RUN && Next() % stick) i = cur;
    else {
      n = (int)(Next() % (uint64_t)n);
      for (i = 0; !Ready(th[i]) || n-- > 0;) i++;
    }
    Thread& t = th[i];
    if (t.state == COND) { t.timed_out = true; t.state = LOCK; t.waits = t.mutex; continue; }
    if (t.state == LOCK) Hold(t.waits, i);
    t.state = RUN;
    return i;
  }
}
NS void Switch() {
  steps++;
  if (steps > 300000) verif_check(false, "comes to rest");
  const int from = cur, to = Pick();
  if (to < 0) verif_check(false, "no deadlock: every wait ends");
  key = (key ^ (uint64_t)(to + 1)) * 1099511628211ULL;
  if (to == from) return;
  cur = to;
  __tsan_switch_to_fiber(th[to].fiber, 1);
  swapcontext(&th[from].ctx, &th[to].ctx);
}
NS void Finish() {
  Thread& t = th[cur];
  __tsan_release(&t);
  t.state = DONE;
  if (!t.mine && spans_n < 4096) spans[spans_n++] = {t.born, t.last};
  for (auto& h : held) if (h.m && h.owner == cur) verif_check(false, "a thread does not end holding a mutex");
  Switch();
}
NS void Entry() {
  Thread& t = th[cur];
  __tsan_acquire(&t);
  t.ret = t.fn(t.arg);
  Finish();
}
NS int Create(void* (*fn)(void*), void* arg) {
  int c[kMax], n = 0;
  for (int i = 0; i < kMax && n < 3; i++) if (th[i].state == FREE || (th[i].state == DONE && (th[i].detached || th[i].joined))) c[n++] = i;
  if (!n) verif_check(false, "too many threads");
  const int i = c[Next() % (uint64_t)n];
  Thread& t = th[i];
  if (!t.stack) t.stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (t.fiber) __tsan_destroy_fiber(t.fiber);
  t.fiber = __tsan_create_fiber(0);
  getcontext(&t.ctx);
  t.ctx.uc_stack.ss_sp = t.stack; t.ctx.uc_stack.ss_size = kStack; t.ctx.uc_link = nullptr;
  makecontext(&t.ctx, Entry, 0);
  t.fn = fn; t.arg = arg; t.ret = nullptr;
  t.mine = next_mine; t.detached = t.joined = t.timed_out = false;
  t.deadline = -1; t.born = t.last = steps;
  t.state = RUN;
  __tsan_release(&t);
  return i;
}
NS int Wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline) {
  Use(c); Use(m);
  if (Owner(m) != cur) verif_check(false, "wait with the mutex held");
  Thread& t = th[cur];
  __tsan_release(m);
  Drop(m);
  t.state = COND; t.waits = c; t.mutex = m; t.deadline = deadline; t.timed_out = false;
  Switch();
  __tsan_acquire(m);
  Use(m);
  return t.timed_out ? ETIMEDOUT : 0;
}
NS void Signal(pthread_cond_t* c, bool all) {
  Use(c);
  Switch();
  Use(c);
  do {
    int n = 0;
    for (auto& t : th) n += t.state == COND && t.waits == c;
    if (!n) break;
    n = (int)(Next() % (uint64_t)n);
    for (auto& t : th)
      if (t.state == COND && t.waits == c && n-- == 0) { t.timed_out = false; t.state = LOCK; t.waits = t.mutex; break; }
  } while (all);
  th[cur].last = steps;
  Switch();
}
NS int Index(pthread_t t) { return (int)((uintptr_t)t / 4096) - 1; }
NS int64_t Ns(const timespec* t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
}  // namespace

extern "C" {
NS void sched_run(uint64_t seed, void (*f)()) {
  static ucontext_t unused;
  (void)unused;
  rnd = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!rnd) rnd = 1;
  Next(); Next();
  for (auto& t : th) t.state = FREE;
  for (auto& h : held) h.m = nullptr;
  steps = 0; key = 1469598103934665603ULL; now_ = 1000; dead_n = 0; spans_n = 0;
  static const uint32_t sticks[] = {1, 2, 4, 20}, advs[] = {4, 20, 100, 1000}, spurs[] = {0, 0, 8, 60};
  stick = sticks[Next() % 4]; adv = advs[Next() % 4]; spur = spurs[Next() % 4];
  Thread& t = th[0];
  t.state = RUN; t.mine = true; t.fiber = __tsan_get_current_fiber();
  next_mine = false;
  cur = 0;
  f();
  t.state = IDLE;
  Switch();
  for (auto& x : th) if (&x != &t && x.state != FREE && x.state != DONE) verif_check(false, "every thread ends");
  cur = -1;
  for (auto& x : th) if (&x != &t && x.fiber) { __tsan_destroy_fiber(x.fiber); x.fiber = nullptr; }
}
NS uint32_t sched_rand(uint32_t n) { return (uint32_t)(Next() % n); }
NS void sched_point() { Switch(); }
NS int64_t sched_now() { return now_; }
NS void sched_sleep(int64_t ns) { th[cur].state = SLEEP; th[cur].deadline = now_ + ns; Switch(); }
NS void sched_idle() { th[cur].state = IDLE; Switch(); }
NS void sched_mine(bool on) { next_mine = on; }
NS void sched_dead(const void* p, size_t n) { if (dead_n < 8) dead[dead_n++] = {(const char*)p, n}; }
NS uint32_t sched_threads() {
  uint32_t best = 0;
  for (uint32_t i = 0; i < spans_n; i++) {
    uint32_t n = 0;
    for (uint32_t j = 0; j < spans_n; j++) n += spans[j].born <= spans[i].born && spans[j].last > spans[i].born;
    n += spans[i].last > spans[i].born ? 0 : 1;
    if (n > best) best = n;
  }
  return best;
}
NS uint64_t sched_steps() { return steps; }
NS uint64_t sched_key() { return key; }

NS int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  if (cur < 0) return Real(real, "pthread_create")(t, a, fn, arg);
  th[cur].last = steps;
  *t = (pthread_t)(uintptr_t)((Create(fn, arg) + 1) * 4096);
  Switch();
  return 0;
}
NS int pthread_join(pthread_t t, void** r) {
  static int (*real)(pthread_t, void**);
  if (cur < 0) return Real(real, "pthread_join")(t, r);
  const int i = Index(t);
  if (i < 0 || i >= kMax || i == cur || th[i].detached || th[i].joined) verif_check(false, "joins a joinable thread");
  th[cur].state = JOIN; th[cur].join = i;
  Switch();
  __tsan_acquire(&th[i]);
  th[i].joined = true;
  if (r) *r = th[i].ret;
  return 0;
}
NS int pthread_detach(pthread_t t) {
  static int (*real)(pthread_t);
  if (cur < 0) return Real(real, "pthread_detach")(t);
  const int i = Index(t);
  if (i < 0 || i >= kMax || th[i].detached || th[i].joined || th[i].state == FREE) verif_check(false, "detaches a joinable thread");
  th[i].detached = true;
  return 0;
}
NS pthread_t pthread_self() {
  static pthread_t (*real)();
  if (cur < 0) return Real(real, "pthread_self")();
  return (pthread_t)(uintptr_t)((cur + 1) * 4096);
}
NS int pthread_mutex_lock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  if (cur < 0) return Real(real, "pthread_mutex_lock")(m);
  Use(m);
  if (Owner(m) == cur) verif_check(false, "a thread does not lock a mutex it holds");
  th[cur].state = LOCK; th[cur].waits = m;
  Switch();
  __tsan_acquire(m);
  Use(m);
  return 0;
}
NS int pthread_mutex_trylock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  if (cur < 0) return Real(real, "pthread_mutex_trylock")(m);
  Use(m);
  Switch();
  Use(m);
  if (Owner(m) >= 0) return EBUSY;
  Hold(m, cur);
  __tsan_acquire(m);
  return 0;
}
NS int pthread_mutex_unlock(pthread_mutex_t* m) {
  static int (*real)(pthread_mutex_t*);
  if (cur < 0) return Real(real, "pthread_mutex_unlock")(m);
  Use(m);
  if (Owner(m) != cur) verif_check(false, "only the holder unlocks a mutex");
  __tsan_release(m);
  Drop(m);
  Switch();
  return 0;
}
NS int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*);
  if (cur < 0) return Real(real, "pthread_cond_wait")(c, m);
  return Wait(c, m, -1);
}
NS int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
  if (cur < 0) return Real(real, "pthread_cond_timedwait")(c, m, t);
  return Wait(c, m, Ns(t));
}
NS int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) {
  static int (*real)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  if (cur < 0) return Real(real, "pthread_cond_clockwait")(c, m, k, t);
  return Wait(c, m, Ns(t));
}
NS int pthread_cond_signal(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*);
  if (cur < 0) return Real(real, "pthread_cond_signal")(c);
  Signal(c, false);
  return 0;
}
NS int pthread_cond_broadcast(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*);
  if (cur < 0) return Real(real, "pthread_cond_broadcast")(c);
  Signal(c, true);
  return 0;
}
NS int pthread_cond_destroy(pthread_cond_t* c) {
  static int (*real)(pthread_cond_t*);
  if (cur < 0) return Real(real, "pthread_cond_destroy")(c);
  for (auto& t : th) if (t.state == COND && t.waits == c) verif_check(false, "nobody waits at a condition variable which is destroyed");
  return 0;
}
NS int sched_yield() {
  if (cur < 0) return (int)syscall(SYS_sched_yield);
  Switch();
  return 0;
}
NS int nanosleep(const timespec* t, timespec*) {
  static int (*real)(const timespec*, timespec*);
  if (cur < 0) return Real(real, "nanosleep")(t, nullptr);
  sched_sleep(Ns(t));
  return 0;
}
NS int clock_nanosleep(clockid_t k, int flags, const timespec* t, timespec*) {
  static int (*real)(clockid_t, int, const timespec*, timespec*);
  if (cur < 0) return Real(real, "clock_nanosleep")(k, flags, t, nullptr);
  sched_sleep(flags ? Ns(t) - now_ : Ns(t));
  return 0;
}
NS int clock_gettime(clockid_t k, timespec* t) {
  if (cur < 0) return (int)syscall(SYS_clock_gettime, k, t);
  t->tv_sec = now_ / 1000000000; t->tv_nsec = now_ % 1000000000;
  return 0;
}
}
