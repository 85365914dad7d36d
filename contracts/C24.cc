// Contracts of TaskRunner::ApplyTaskSync over every task runner that runs what is posted as often as asked.
#include <atomic>
#include <chrono>
#include <cstddef>
#include <functional>
#include <memory>
#include <thread>
#include <utility>
#include <vector>

#include "rst/task_runner/task_runner.h"
#include "verif.h"

using std::chrono::nanoseconds;

extern "C" {
void verif_share_heap();
void verif_unshare();
void verif_env();
}

namespace {
// How the posted function is run.
enum class Mode { kAtOnce, kOthersMeanwhile, kLater };

struct Payload {
  explicit Payload(int* live) : live(live) { ++*live; }
  Payload(const Payload& o) : live(o.live) { ++*live; }
  ~Payload() { --*live; }
  int* live;
};

size_t n;          // iterations
size_t runs;       // executions of the task
size_t focus;      // an arbitrary index
size_t hits;       // executions of the task with it
size_t done;       // executions of the posted function which have ended
bool in_post, posted, returned;
bool env_on, later;
int live;

struct Runner : rst::TaskRunner {
  void PostDelayedTaskWithIterations(std::function<void()>&& t, nanoseconds d, size_t it) override {
    verif_check(!posted, "posts once");
    posted = true;
    verif_check(d.count() == 0, "without delay");
    verif_check(it == n - 1, "asks for as many executions as there are indices");
    f = std::move(t);
    Posted();
  }
  virtual void Posted() {}
  std::function<void()> f;
};
Runner* runner;

void Task(size_t i) {
  verif_check(!returned, "all executions end before ApplyTaskSync returns");
  verif_check(i < n, "every index is below n");
  if (i == focus) {
    verif_check(hits == 0, "no index is run twice");
    hits++;
  }
  runs++;
}
void RunSome(size_t k) {
  for (size_t i = 0; i < k; i++) {
    runner->f();
    done++;
  }
}
void Apply(Runner* r) {
  runner = r;
  n = verif::any<size_t>("iterations");
  focus = verif::any<size_t>("index");
  if (verif_native()) { n %= 300; focus %= 300; }
  verif_assume(n > 0 && focus < n);
  runs = hits = done = 0;
  posted = returned = env_on = later = false;
  live = 0;
  r->ApplyTaskSync([p = Payload(&live)](size_t i) { (void)p; Task(i); }, n);
  returned = true;
  env_on = false;
#ifdef VERIF_SYMBOLIC
  verif_unshare();
#endif
  verif_check(posted, "posts the task");
  verif_check(runs == n && done == n, "returns after the last execution");
  verif_check(hits == 1, "each index is run exactly once");
  verif_check(live == 1, "the shared state outlives every execution");
  r->f = nullptr;
  verif_check(live == 0, "the shared state is released");
}
}  // namespace

// The runner runs everything before it returns from posting.
HARNESS(AtOnce) {
  struct R : Runner {
    void Posted() override { RunSome(n); }
  } r;
  Apply(&r);
}

#ifdef VERIF_SYMBOLIC
// Other threads run any number of the executions.
extern "C" void verif_env() {
  if (!env_on) return;
  const size_t k = verif::any<size_t>("executions by other threads");
  verif_assume(k <= n - done - (later ? 0 : 1));
  // while ApplyTaskSync waits: some now and all the rest before it is woken
  if (later) verif_assume(k == 0 || k == n - done);
  RunSome(k);
}
// At every atomic operation and lock of one execution other threads run any number of executions.
HARNESS(Interleaved) {
  struct R : Runner {
    void Posted() override {
      const size_t before = verif::any<size_t>("executions before");
      verif_assume(before < n);
      RunSome(before);
      verif_share_heap();
      env_on = true;
      f();
      env_on = false;
      done++;
      verif_unshare();
      RunSome(n - done);
    }
  } r;
  Apply(&r);
}
// Other threads run the executions while ApplyTaskSync waits.
HARNESS(Later) {
  struct R : Runner {
    void Posted() override {
      const size_t before = verif::any<size_t>("executions before");
      verif_assume(before < n);
      RunSome(before);
      verif_share_heap();
      later = env_on = true;
    }
  } r;
  Apply(&r);
}
#endif

HARNESS(None) {
  struct R : Runner {
    void Posted() override {}
  } r;
  n = 0;
  posted = false;
  verif_expect_abort(true, "no iterations assert");
  r.ApplyTaskSync([](size_t) {}, 0);
  verif_end_expect();
}

#ifndef VERIF_SYMBOLIC
HARNESS(Threads) {
  struct R : Runner {
    void PostDelayedTaskWithIterations(std::function<void()>&& t, nanoseconds d, size_t it) override {
      verif_check(d.count() == 0 && it == count - 1, "asks for as many executions as there are indices");
      f = std::move(t);
      for (unsigned i = 0; i < threads; i++)
        ts.emplace_back([this, g = f] {
          while (next.fetch_add(1, std::memory_order_relaxed) < count) g();
        });
    }
    std::vector<std::thread> ts;
    std::atomic<size_t> next{0};
    size_t count;
    unsigned threads;
  } r;
  r.count = 1 + verif::choice(40, "iterations");
  r.threads = 1 + verif::choice(6, "threads");
  std::vector<std::atomic<int>> ran(r.count);
  std::atomic<size_t> total{0};
  r.ApplyTaskSync([&](size_t i) {
    if (i < r.count) ran[i].fetch_add(1, std::memory_order_relaxed);
    total.fetch_add(1, std::memory_order_relaxed);
  }, r.count);
  const size_t at_return = total;
  r.f = nullptr;
  for (auto& t : r.ts) t.join();
  verif_check(at_return == r.count, "returns after the last execution");
  for (auto& x : ran) verif_check(x == 1, "each index is run exactly once");
}
#endif
