// Contract of PollingTaskRunner over every history of posts, clock values and RunPendingTasks calls.
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <utility>
#include <vector>

#include "rst/task_runner/polling_task_runner.h"
#include "verif.h"

using std::chrono::nanoseconds;

#ifdef VERIF_SYMBOLIC
extern "C" uint64_t verif_ite(bool c, uint64_t a, uint64_t b);
extern "C" void verif_posting(int on);
extern "C" void verif_alone();
namespace {
// Two arbitrary tasks, 0 being the one that is to run first if both are due.
struct Focus {
  uint64_t id;
  uint64_t posted;
  uint64_t eligible;  // was queued and due when RunPendingTasks was called
  uint64_t done;
  int64_t due;
  uint64_t iters;
  uint64_t runs;
};
struct Foci {
  Focus* begin() { return f; }
  Focus* end() { return f + 2; }
  Focus f[2];
};
Foci* focus;
uint64_t next_id;
int64_t now;
bool running;
rst::PollingTaskRunner* runner;

constexpr int64_t kFar = int64_t{1} << 61;

}  // namespace

extern "C" {
uint64_t verif_ite(bool c, uint64_t a, uint64_t b);
void verif_queue(Foci* f, std::function<void()>* sample, int64_t* clock);
void verif_queue_before(rst::PollingTaskRunner* r);
void verif_queue_learn(rst::PollingTaskRunner* r, int64_t due, uint64_t iters);
void verif_queue_any(rst::PollingTaskRunner* r, uint64_t posted);
bool verif_queue_ok(rst::PollingTaskRunner* r, uint64_t posted);
}

namespace {
void Ran(uint64_t id);
std::function<void()> Task(uint64_t id) {
  return [id]() { Ran(id); };
}
int64_t AnyTime(const char* name) {
  const auto t = verif::any<int64_t>(name);
  verif_assume(t >= 0 && t <= kFar);
  return t;
}
// No branches here, so that the verifier sees one path.
uint64_t If(bool c, uint64_t a, uint64_t b) { return verif_ite(c, a, b); }
bool Before(const Focus& a, const Focus& b) { return (a.due < b.due) | ((a.due == b.due) & (a.id < b.id)); }
bool Ordered() {
  const auto& a = focus->f[0];
  const auto& b = focus->f[1];
  return (a.posted == 0) | (b.posted == 0) | Before(a, b);
}
void Post() {
  verif_assume(next_id < uint64_t{1} << 62);
  const uint64_t id = next_id++;
  const int64_t delay = AnyTime("delay");
  const auto iters = verif::any<size_t>("iterations");
  verif_assume(iters != SIZE_MAX);
  for (auto& f : *focus) {
    const bool mine = f.id == id;
    f.posted = If(mine, 1, f.posted);
    f.due = If(mine, now + delay, f.due);
    f.iters = If(mine, iters, f.iters);
    f.runs = If(mine, 0, f.runs);
  }
  verif_assume(Ordered());
  verif_posting(1);
  static_cast<rst::TaskRunner*>(runner)->PostDelayedTaskWithIterations(Task(id), nanoseconds(delay), iters);
  verif_posting(0);
}
void Ran(const uint64_t id) {
  verif_check(running, "tasks run in RunPendingTasks only");
  auto& a = focus->f[0];
  auto& b = focus->f[1];
  for (auto& f : *focus) {
    const bool mine = f.id == id;
    verif_check(!mine | (f.eligible != 0), "only tasks posted before the call and due are run");
    verif_check(!mine | (f.runs <= f.iters), "a task runs at most its number of times");
    f.runs += mine;
  }
  verif_check((id != a.id) | (b.runs == 0), "in order of due time and posting");
  verif_check((id != b.id) | (a.eligible == 0) | (a.runs == a.iters + 1), "after every earlier task is complete");
  if (verif::any<bool>("task posts")) Post();
}
void Run() {
  for (auto& f : *focus) {
    f.eligible = (f.posted != 0) & (f.done == 0) & (f.due <= now);
    f.runs = 0;
  }
  running = true;
  verif_posting(0);
  runner->RunPendingTasks();
  running = false;
  for (auto& f : *focus) {
    verif_check(f.runs == If(f.eligible != 0, f.iters + 1, 0), "exactly the due tasks run as often as posted for");
    f.done |= f.eligible;
    f.eligible = 0;
    f.runs = 0;
  }
}
}  // namespace

namespace {
// Any state between two calls.  The tasks in focus are any two tasks, posted in the past or future.
template <class F>
void AnyState(F&& f) {
  Foci foci;
  focus = &foci;
  for (auto& x : foci) x.id = x.posted = x.eligible = x.done = x.iters = x.runs = 0, x.due = 0;
  auto sample = Task(0);
  verif_queue(focus, &sample, &now);
  running = false;
  now = AnyTime("clock");
  rst::PollingTaskRunner r([]() { return nanoseconds(now); });
  runner = &r;
  // watch one post
  verif_queue_before(&r);
  foci.f[0].id = 1;
  foci.f[1].id = 2;
  const auto d = AnyTime("delay");
  const auto n = verif::any<size_t>("iterations");
  static_cast<rst::TaskRunner*>(runner)->PostDelayedTaskWithIterations(Task(1), nanoseconds(d), n);
  verif_queue_learn(&r, now + d, n);
  // any history
  next_id = verif::any<uint64_t>("posts");
  verif_assume(next_id < uint64_t{1} << 62);
  for (auto& x : foci) {
    x.id = verif::any<uint64_t>("focus");
    x.posted = x.id < next_id;
    x.done = x.posted & verif::any<bool>("done");
    x.due = verif::any<int64_t>("due");
    x.iters = verif::any<size_t>("iterations");
    verif_assume(x.iters != SIZE_MAX);
  }
  const auto& a = foci.f[0];
  const auto& b = foci.f[1];
  verif_assume(a.id != b.id);
  verif_assume(Ordered());
  verif_queue_any(&r, next_id);
  now = AnyTime("clock");
  f();
  verif_alone();
  verif_check(verif_queue_ok(&r, next_id), "the tasks not yet run are queued with due time, order and number");
}
}  // namespace
HARNESS(Posts) {
  AnyState([]() { Post(); });
}
HARNESS(Runs) {
  AnyState([]() { Run(); });
}
#else
namespace {
// Against a list of what is still to be run.
struct Posted {
  int64_t due;
  uint64_t id;
  uint64_t times;
};
struct Model {
  rst::PollingTaskRunner* runner = nullptr;
  std::vector<Posted> waiting;
  std::vector<uint64_t> expected;
  size_t next = 0;
  uint64_t id = 0;
  int64_t now = 0;
  bool running = false;
};
void Post(Model& m) {
  const auto delay = static_cast<int64_t>(verif::choice(4, "kind") == 0 ? verif::choice(100, "delay") : verif::choice(4, "delay"));
  const uint64_t iters = verif::choice(5, "more") == 0 ? verif::choice(4, "iterations") : 0;
  const auto id = m.id++;
  m.waiting.push_back({m.now + delay, id, iters + 1});
  auto task = [&m, id]() {
    verif_check(m.running, "tasks run in RunPendingTasks only");
    verif_check(m.next < m.expected.size() && m.expected[m.next] == id, "due tasks run in order, each as often as posted for");
    m.next++;
    if (m.id < 400 && verif::choice(6, "task posts") == 0) Post(m);
  };
  rst::TaskRunner& r = *m.runner;
  if (iters == 0 && delay == 0) r.PostTask(std::move(task));
  else if (iters == 0) r.PostDelayedTask(std::move(task), nanoseconds(delay));
  else r.PostDelayedTaskWithIterations(std::move(task), nanoseconds(delay), iters);
}
void Run(Model& m) {
  m.expected.clear();
  m.next = 0;
  std::vector<Posted> due, rest;
  for (const auto& t : m.waiting) (t.due <= m.now ? due : rest).push_back(t);
  while (!due.empty()) {
    size_t best = 0;
    for (size_t i = 1; i < due.size(); i++)
      if (due[i].due < due[best].due || (due[i].due == due[best].due && due[i].id < due[best].id)) best = i;
    for (uint64_t i = 0; i < due[best].times; i++) m.expected.push_back(due[best].id);
    due.erase(due.begin() + static_cast<ptrdiff_t>(best));
  }
  m.waiting = std::move(rest);
  m.running = true;
  m.runner->RunPendingTasks();
  m.running = false;
  verif_check(m.next == m.expected.size(), "every due task runs as often as posted for");
}
}  // namespace
HARNESS(Histories) {
  Model m;
  rst::PollingTaskRunner r([&m]() { return nanoseconds(m.now); });
  m.runner = &r;
  const auto n = verif::choice(60, "operations");
  for (uint64_t i = 0; i < n; i++) {
    switch (verif::choice(4, "operation")) {
      case 0: m.now += static_cast<int64_t>(verif::choice(4, "time")); break;
      case 1: Run(m); break;
      default: Post(m);
    }
  }
  m.now += 200;
  Run(m);
}
#endif
