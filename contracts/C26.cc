// Contracts of OneShotTimer over any task runner.
#include <chrono>
#include <cstdint>
#include <functional>
#include <memory>
#include <utility>

#include "rst/task_runner/task_runner.h"
#include "rst/timer/one_shot_timer.h"
#include "verif.h"

using rst::OneShotTimer;
using std::chrono::nanoseconds;

namespace {
constexpr int kMax = 8;
// A runner that only keeps what is posted.
struct Runner : rst::TaskRunner {
  void PostDelayedTaskWithIterations(std::function<void()>&& t, nanoseconds d, size_t it) override {
    verif_check(n < kMax, "posted too often");
    verif_check(it == 0, "posted to run once");
    tasks[n] = std::move(t);
    delay = d;
    n++;
  }
  std::function<void()> tasks[kMax];
  nanoseconds delay{-1};
  int n = 0;
};

// What must have happened.
struct Model {
  Runner runner;
  std::unique_ptr<OneShotTimer> timer;
  int starts = 0;       // the latest Start
  int ran[kMax] = {};   // how often each Start's task ran
  int expect[kMax] = {};
  bool running = false;
  int inner[kMax] = {};  // what each task does
  bool ok = true;
};
Model* m;
struct Tracked {
  explicit Tracked(int* c) : c(c) { ++*c; }
  Tracked(const Tracked& o) : c(o.c) { ++*c; }
  Tracked(Tracked&& o) noexcept : c(o.c) { ++*c; }
  ~Tracked() { --*c; }
  int* c;
};
int live = 0;

void Start();
void Expect() {
  verif_check(m->timer == nullptr || m->timer->IsRunning() == m->running, "IsRunning reports the state");
  for (int i = 0; i < m->starts; i++) verif_check(m->ran[i] == m->expect[i], "exactly the latest task runs, once");
}
void TaskBody(int k) {
  m->ran[k]++;
  verif_check(m->ran[k] == m->expect[k], "each task runs at most once, when it is due");
  verif_check(m->timer != nullptr && !m->timer->IsRunning(), "no longer running once its task is taken to run");
  const int what = m->inner[k];
  if (what == 1) {
    Start();
  } else if (what == 2) {
    m->timer.reset();
    m->running = false;
  } else if (what == 3) {
    Start();
    m->timer.reset();
    m->running = false;
  }
}
void Start() {
  const int k = m->starts++;
  const int posted = m->runner.n;
  nanoseconds d(verif::any<int64_t>("delay"));
  const Tracked t(&live);
  m->timer->Start([k, t]() { TaskBody(k); }, d);
  m->running = true;
  verif_check(m->runner.n == posted + 1 && m->runner.delay == d, "one task is posted with the delay");
  verif_check(m->timer->IsRunning(), "running after Start");
}
// The runner executes the callback posted by the k-th Start.
void RunPosted(int k) {
  if (m->timer != nullptr && m->running && k == m->starts - 1) {
    m->expect[k]++;
    m->running = false;
  }
  m->runner.tasks[k]();
}
void Step() {
  switch (verif::choice(4, "operation")) {
    case 0:
      if (m->timer == nullptr || m->starts >= kMax - 2) return;
      m->inner[m->starts] = static_cast<int>(verif::choice(4, "what the task does"));
      Start();
      break;
    case 1: {
      const int k = static_cast<int>(verif::choice(kMax, "which posted task"));
      if (k >= m->starts) return;
      RunPosted(k);
      break;
    }
    case 2:
      if (m->timer == nullptr || !m->running) return;
      m->expect[m->starts - 1]++;
      m->running = false;
      m->timer->FireNow();
      break;
    default:
      m->timer.reset();
      m->running = false;
  }
  Expect();
}
template <int kSteps>
void History() {
  Model model;
  m = &model;
  live = 0;
  m->timer = std::make_unique<OneShotTimer>([]() -> rst::TaskRunner& { return m->runner; });
  verif_check(!m->timer->IsRunning(), "not running at first");
  for (int i = 0; i < kSteps; i++) Step();
  // Whatever is still posted runs at the end.
  for (int i = 0; i < m->starts; i++) RunPosted(i);
  Expect();
  m->timer.reset();
  for (int i = 0; i < kMax; i++) m->runner.tasks[i] = nullptr;
  verif_check(live == 0, "the tasks are destroyed");
}

// The number of Starts so far, if the timer counts them in task_id_.
template <class T>
auto SetStarts(T& t, uint64_t n, int) -> decltype(t.task_id_ = n, void()) { t.task_id_ = n; }
template <class T>
void SetStarts(T&, uint64_t, long) {}
}  // namespace

// Histories of up to three operations from the initial state, tasks that restart or destroy the timer included.
HARNESS(History3) { History<3>(); }
// Longer histories (native runs).
HARNESS(History6) { History<6>(); }

// After any number of Starts: a callback of any earlier Start does nothing, that of the latest runs its task.
HARNESS(AnyNumberOfStarts) {
  int a = 0, b = 0, c = 0;
  Runner r;
  OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  const uint64_t n = verif::any<uint64_t>("starts before"), more = verif::any<uint64_t>("starts between");
  verif_assume(n < (1ull << 62) && more < (1ull << 62));
  SetStarts(t, n, 0);
  t.Start([&a]() { a++; }, nanoseconds(1));
  SetStarts(t, n + 1 + more, 0);
  const bool fired = verif::any<bool>("fired between");
  if (fired && more == 0) {
    t.FireNow();
    verif_check(a == 1 && !t.IsRunning(), "fires");
  }
  const int a0 = a;
  t.Start([&b]() { b++; }, nanoseconds(2));
  verif_check(t.IsRunning() && r.n == 2, "running");
  r.tasks[0]();
  verif_check(a == a0 && b == 0 && t.IsRunning(), "a replaced callback does nothing");
  switch (verif::choice(4, "then")) {
    case 0:
      r.tasks[1]();
      verif_check(b == 1 && !t.IsRunning(), "the latest callback runs the latest task");
      r.tasks[1]();
      t.Start([&c]() { c++; }, nanoseconds(3));
      r.tasks[1]();
      verif_check(b == 1 && c == 0 && t.IsRunning(), "and only once");
      break;
    case 1:
      t.FireNow();
      verif_check(b == 1 && !t.IsRunning(), "FireNow runs the latest task");
      r.tasks[1]();
      r.tasks[0]();
      verif_check(b == 1 && a == a0, "which then does not run again");
      break;
    case 2:
      t.Start([&c]() { c++; }, nanoseconds(3));
      r.tasks[1]();
      verif_check(b == 0 && c == 0, "a replaced task never runs");
      r.tasks[2]();
      verif_check(b == 0 && c == 1, "the new one does");
      break;
    default:
      t.FireNow();
      t.Start([&c]() { c++; }, nanoseconds(3));
      r.tasks[1]();
      verif_check(b == 1 && c == 0 && t.IsRunning(), "an old callback does not run a new task");
      t.FireNow();
      verif_check(c == 1, "which still can be fired");
  }
  verif_check(a == a0, "a replaced task never runs");
}

HARNESS(FireNowNotRunning) {
  Runner r;
  OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  if (verif::any<bool>("fired before")) {
    t.Start([]() {}, nanoseconds(1));
    t.FireNow();
  }
  verif_expect_abort(true, "FireNow of a timer that is not running asserts");
  t.FireNow();
  verif_end_expect();
}
HARNESS(StartNull) {
  Runner r;
  OneShotTimer t([&r]() -> rst::TaskRunner& { return r; });
  verif_expect_abort(true, "Start without a task asserts");
  t.Start(nullptr, nanoseconds(1));
  verif_end_expect();
}

// Each Start posts to the runner of that moment, once.
HARNESS(RunnerAtStart) {
  Runner r1, r2;
  Runner* cur = &r1;
  int a = 0;
  OneShotTimer t([&cur]() -> rst::TaskRunner& { return *cur; });
  t.Start([&a]() { a++; }, nanoseconds(5));
  cur = &r2;
  t.Start([&a]() { a += 10; }, nanoseconds(6));
  verif_check(r1.n == 1 && r2.n == 1 && r1.delay == nanoseconds(5) && r2.delay == nanoseconds(6), "posted to the runner of that moment");
  r1.tasks[0]();
  verif_check(a == 0, "replaced");
  r2.tasks[0]();
  verif_check(a == 10, "runs");
}
