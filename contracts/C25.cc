// Contracts of Barrier, for one thread among any number of others.
// The other threads act wherever this thread takes a lock or waits: there
// verif_env() runs the real CountDown code any number of times.
#include <condition_variable>
#include <cstddef>
#include <memory>
#include <new>
#include <thread>
#include <vector>
#include <atomic>

#include "rst/threading/barrier.h"
#include "verif.h"

using rst::Barrier;

extern "C" {
void verif_share(void* p, size_t n);
void verif_unshare();
void verif_env();
void verif_copy_state(void* to, const void* from);
bool verif_same_state(const void* p, const void* q);
void verif_on_wait(void* cv);
void verif_on_notify(void* cv, bool all, bool env);
bool verif_entered();
}

#ifdef VERIF_SYMBOLIC
namespace {
Barrier* barrier = nullptr;
size_t others;          // count-downs of the other threads still to come
bool mine;              // this thread's count-down is still to come
bool may_wait, waited;
bool notified;          // by this thread, since its last wait
bool env_notified;      // by the other thread
bool probing;
bool down_wakes, down_wakes_all, both_wakes, both_wakes_all;     // how the opener of a barrier wakes
ptrdiff_t cv_at = -1;   // the condition variable of the barrier
}  // namespace

// The other threads count down any number of times, the last one possibly by CountDownAndWait.
extern "C" void verif_env() {
  if (mine) {     // has this thread counted down in an earlier critical section?
    Barrier* const b = new (::operator new(sizeof(Barrier))) Barrier(others + 1);
    mine = verif_same_state(barrier, b);
    ::operator delete(b);
  }
  const size_t k = verif::any<size_t>("other threads' count-downs");
  verif_assume(k <= others);
  if (k == 0) return;
  others -= k;
  // all but the last one: by the contract of CountDown (harness Step)
  const size_t now = others + (mine ? 1 : 0);
  Barrier* const before = new (::operator new(sizeof(Barrier))) Barrier(now + 1);
  verif_copy_state(barrier, before);
  ::operator delete(before);
  env_notified = false;
  if (now == 0 && verif::any<bool>("the opener waits")) barrier->CountDownAndWait();
  else barrier->CountDown();
  if (now == 0) verif_check(env_notified, "the opener wakes a waiter");
}
extern "C" void verif_on_wait(void* cv) {
  mine = false;
  verif_check(may_wait && others != 0, "nobody waits at an open barrier");
  verif_check((char*)cv - (char*)barrier == cv_at, "waits where the opener notifies");
  waited = true;
  notified = false;
}
extern "C" void verif_on_notify(void* cv, bool all, bool env) {
  if (probing) { down_wakes = true; down_wakes_all = all; cv_at = (char*)cv - (char*)barrier; return; }
  if ((char*)cv - (char*)barrier != cv_at) return;
  if (env) { env_notified = true; return; }
  if (verif_entered()) notified = true;
}

namespace {
// How does the opener wake?
void Probe() {
  probing = true;
  barrier = new Barrier(1);
  verif_share(barrier, sizeof(Barrier));
  down_wakes = down_wakes_all = false;
  barrier->CountDownAndWait();
  both_wakes = down_wakes; both_wakes_all = down_wakes_all;
  verif_unshare();
  delete barrier;
  barrier = new Barrier(1);
  verif_share(barrier, sizeof(Barrier));
  down_wakes = down_wakes_all = false;
  barrier->CountDown();
  verif_unshare();
  delete barrier;
  verif_check(both_wakes && down_wakes, "opening notifies");
  probing = false;
}
// A barrier that this thread shares with others, at any point of its life.
void Start(bool counts) {
  others = 0;
  Probe();
  const size_t n = verif::any<size_t>("counter");
  verif_assume(n > 0);
  barrier = new Barrier(n);
  others = n - (counts ? 1 : 0);
  mine = counts;
  waited = notified = false;
  verif_share(barrier, sizeof(Barrier));
}
// Afterwards: how many count-downs does the barrier still need?
void End() {
  verif_unshare();
  const size_t k = verif::any<size_t>("count-downs to the end");
  verif_assume(k <= others);
  for (size_t i = 0; i < k; i++) barrier->CountDown();
  verif_expect_abort(others != k, "destroying a barrier that has not opened asserts");
  delete barrier;
  verif_end_expect();
}
void Released() {
  verif_check(others == 0, "returns only when the count is zero");
  if (waited) verif_check(down_wakes_all && both_wakes_all || notified, "a woken waiter wakes the next");
}
}  // namespace

// Counting down n to n - 1 leaves a barrier as one created with n - 1.
HARNESS(Step) {
  const size_t n = verif::any<size_t>("counter");
  verif_assume(n > 1);
  Barrier* const b = new Barrier(n);
  Barrier* const c = new Barrier(n - 1);
  b->CountDown();
  verif_check(verif_same_state(b, c), "each CountDown lowers the counter by one");
}

HARNESS(CountDown) {
  Start(true);
  may_wait = false;
  barrier->CountDown();
  mine = false;
  verif_check(others != 0 || notified, "opening wakes a waiter");
  End();
}

HARNESS(CountDownAndWait) {
  Start(true);
  may_wait = true;
  barrier->CountDownAndWait();
  mine = false;
  Released();
  verif_check(waited || notified, "opening wakes a waiter");
  End();
}

HARNESS(Wait) {
  Start(false);
  may_wait = true;
  barrier->Wait();
  Released();
  End();
}
#endif

HARNESS(Zero) {
  verif_expect_abort(true, "a barrier for zero asserts");
  Barrier b(0);
  verif_end_expect();
}

HARNESS(TooMany) {
  size_t n = verif::any<size_t>("counter");
  if (verif_native()) n %= 50;
  verif_assume(n > 0);
  Barrier b(n);
  for (size_t i = 0; i < n; i++) b.CountDown();
  b.Wait();
  verif_expect_abort(true, "counting below zero asserts");
  if (verif::any<bool>("and wait")) b.CountDownAndWait();
  else b.CountDown();
  verif_end_expect();
}

#ifndef VERIF_SYMBOLIC
HARNESS(Threads) {
  const unsigned waiters = verif::choice(4, "waiters"), counters = verif::choice(4, "counters"), both = verif::choice(4, "both");
  if (counters + both == 0) return;
  auto b = std::make_unique<Barrier>(counters + both);
  std::atomic<unsigned> down{0}, bad{0};
  std::vector<std::thread> ts;
  for (unsigned i = 0; i < waiters; i++) ts.emplace_back([&] { b->Wait(); if (down != counters + both) bad++; });
  for (unsigned i = 0; i < both; i++) ts.emplace_back([&] { down++; b->CountDownAndWait(); if (down != counters + both) bad++; });
  for (unsigned i = 0; i < counters; i++) ts.emplace_back([&] { down++; b->CountDown(); });
  for (auto& t : ts) t.join();
  verif_check(bad == 0, "returns only when the count is zero");
  b->Wait();
}
#endif
