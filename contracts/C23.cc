// ThreadPoolTaskRunner: contracts of what the pool is made of (proved), and the pool itself under a scheduler which
// draws the interleaving, time-outs, spurious wake-ups and clock from a seed (bounded).
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <memory>
#include <thread>
#include <utility>

#include "rst/task_runner/item.h"
#include "rst/task_runner/thread_pool_task_runner.h"
#include "verif.h"

using std::chrono::nanoseconds;

// Earlier due time first, then earlier posting: a strict total order of tasks.
namespace {
rst::internal::Item AnyItem() {
  return rst::internal::Item(nullptr, nanoseconds(verif::any<int64_t>("due")), verif::any<uint64_t>("id"), verif::any<size_t>("iterations"));
}
int called;
std::function<void()> Task(int id) {
  return [id]() { called = id; };
}
}  // namespace
HARNESS(ItemOrder) {
  const auto a = AnyItem(), b = AnyItem();
  verif_check((a > b) == (a.time_point > b.time_point || (a.time_point == b.time_point && a.task_id > b.task_id)), "later due time, or equal and posted later");
  verif_check(!(a > a), "irreflexive");
}
HARNESS(ItemMoves) {
  auto a = AnyItem();
  a.task = Task(1);
  const auto due = a.time_point;
  const auto id = a.task_id;
  const auto n = a.iterations;
  rst::internal::Item b(std::move(a));
  verif_check(b.time_point == due && b.task_id == id && b.iterations == n, "a moved task keeps its due time, number and iterations");
  auto c = AnyItem();
  c.task = Task(2);
  c = std::move(b);
  verif_check(c.time_point == due && c.task_id == id && c.iterations == n, "a move-assigned task keeps its due time, number and iterations");
  rst::internal::IterationItem d(std::move(c.task), c.iterations);
  rst::internal::IterationItem e(std::move(d));
  rst::internal::IterationItem f(Task(3), verif::any<size_t>("iterations"));
  f = std::move(e);
  verif_check(f.iterations == n, "a moved task keeps its iterations");
  called = 0;
  f.task();
  verif_check(called == 1, "a moved task keeps its function");
}
// What the posting functions ask of the runner.
HARNESS(Posting) {
  struct R : rst::TaskRunner {
    void PostDelayedTaskWithIterations(std::function<void()>&& t, nanoseconds d, size_t n) override {
      f = std::move(t);
      delay = d;
      more = n;
      posts++;
    }
    std::function<void()> f;
    nanoseconds delay{-1};
    size_t more = 99;
    int posts = 0;
  } r, s;
  const nanoseconds d(verif::any<int64_t>("delay"));
  called = 0;
  r.PostTask(Task(1));
  verif_check(r.posts == 1 && r.delay.count() == 0 && r.more == 0, "PostTask posts once, undelayed, for one execution");
  r.f();
  verif_check(called == 1, "the task itself");
  s.PostDelayedTask(Task(2), d);
  verif_check(s.posts == 1 && s.delay == d && s.more == 0, "PostDelayedTask posts once, with its delay, for one execution");
  s.f();
  verif_check(called == 2, "the task itself");
}

#ifndef VERIF_SYMBOLIC
#include "fibers.h"
#define NS __attribute__((no_sanitize_thread))
namespace {
constexpr int kMaxTasks = 64;
struct Posted {
  uint32_t times, started;
  int64_t due;          // 0: not delayed
  uint64_t begin, end;  // of the post
};
struct Model {
  Posted tasks[kMaxTasks];
  int n;
  uint64_t clock;
  int posting, running, most;
  bool closing, dead;
  uint32_t max_threads;
  uint32_t mul, div;    // the pool's clock runs at another speed than the one of the condition variables
};
Model m;
rst::ThreadPoolTaskRunner* pool;

void Post(int depth);
NS int64_t Now() { return 77 + sched_now() * m.mul / m.div; }
NS int NewTask(uint32_t times, int64_t due) {
  const int i = m.n++;
  m.tasks[i] = {times, 0, due, ++m.clock, 0};
  return i;
}
NS void Begin(int i) {
  verif_check(!m.dead, "destruction waits for the workers");
  auto& t = m.tasks[i];
  verif_check(t.started < t.times, "a task runs at most as often as posted for");
  verif_check(t.due == 0 || Now() >= t.due, "a delayed task does not run before its due time");
  t.started++;
  m.running++;
  verif_check((uint32_t)m.running <= m.max_threads, "at most the configured number of threads runs tasks");
  if (t.due) return;
  // what was posted before must have been taken: at most one execution per other worker is taken but not started
  uint32_t before = 0;
  for (int j = 0; j < m.n; j++) {
    const auto& o = m.tasks[j];
    if (o.due == 0 && o.end && o.end < t.begin) before += o.times - o.started;
  }
  verif_check(before <= m.max_threads - 1, "undelayed tasks are taken in posting order");
}
NS void End() { m.running--; verif_check(!m.dead, "destruction waits for the running tasks"); }
NS bool MayPost() { if (m.closing || m.n >= kMaxTasks) return false; m.posting++; return true; }
NS void PostBegins(int) {}
NS void PostEnds(int i) { m.tasks[i].end = ++m.clock; m.posting--; }
void Run(int i, int depth) {
  Begin(i);
  for (auto k = sched_rand(4); k > 0; k--) sched_point();
  if (sched_rand(8) == 0) sched_sleep(sched_rand(20));
  if (depth < 2 && sched_rand(4) == 0) Post(depth + 1);
  End();
}
void Post(const int depth) {
  if (!MayPost()) return;
  const uint32_t times = sched_rand(4) ? 1 : 1 + sched_rand(5);
  const int64_t delay = sched_rand(3) ? 0 : 1 + sched_rand(40);
  const int i = NewTask(times, delay ? Now() + delay : 0);
  std::function<void()> f = [i, depth]() { Run(i, depth); };
  rst::TaskRunner& r = *pool;
  if (times == 1 && delay == 0) r.PostTask(std::move(f));
  else if (times == 1) r.PostDelayedTask(std::move(f), nanoseconds(delay));
  else r.PostDelayedTaskWithIterations(std::move(f), nanoseconds(delay), times - 1);
  PostEnds(i);
}
void Pause() {
  if (sched_rand(3) == 0) sched_point();
  if (sched_rand(6) == 0) sched_sleep(sched_rand(40));
}
void Posts() { for (auto n = sched_rand(8); n > 0; n--) { Post(0); Pause(); } }
NS void AllRan() {
  for (int i = 0; i < m.n; i++) verif_check(m.tasks[i].started == m.tasks[i].times, "every posted task runs as often as posted for");
  verif_check(m.running == 0, "every posted task runs as often as posted for");
}
NS void Reset() { m = Model(); m.max_threads = 1 + sched_rand(4); m.mul = 1 + sched_rand(2); m.div = 1 + sched_rand(3); }
NS uint32_t Max() { return m.max_threads; }
NS bool Close() { m.closing = true; return m.posting == 0; }
NS void Dead() { m.dead = true; verif_check(m.running == 0, "destruction waits for the running tasks"); }

void Live() {
  Reset();
  static const int64_t keep[] = {1, 5, 30, 1000};
  auto p = std::make_unique<rst::ThreadPoolTaskRunner>(Max(), [] { sched_point(); return nanoseconds(Now()); }, nanoseconds(keep[sched_rand(4)]));
  pool = p.get();
  for (auto rounds = 1 + sched_rand(3); rounds > 0; rounds--) {
    std::thread others[2];
    sched_mine(true);
    const auto n = sched_rand(3);
    for (uint32_t i = 0; i < n; i++) others[i] = std::thread(Posts);
    sched_mine(false);
    Posts();
    for (auto& t : others) if (t.joinable()) t.join();
    if (rounds > 1 ? sched_rand(2) : sched_rand(4)) {
      sched_idle();
      AllRan();
    }
    Pause();
  }
  while (!Close()) sched_sleep(1);
  p.reset();
  Dead();
  sched_dead(pool, sizeof *pool);
}
}  // namespace
extern "C" uint64_t verif_run_key() { return m.n ? sched_key() ^ (uint64_t)m.n : 0; }
extern "C" void verif_run_text(char* p, size_t n) {
  if (!m.n) return;
  int k = snprintf(p, n, "threads=%u steps=%llu posts:", m.max_threads, (unsigned long long)sched_steps());
  for (int i = 0; i < m.n && k > 0 && (size_t)k + 40 < n; i++) k += snprintf(p + k, n - (size_t)k, " %ux%s", m.tasks[i].times, m.tasks[i].due ? "(delayed)" : "");
}
HARNESS(Schedules) {
  uint64_t seed = 0;
  for (int i = 0; i < 12; i++) seed = seed * 6364136223846793005ULL + verif::any<uint64_t>("schedule");
  sched_run(seed, Live);
  verif_check(sched_threads() <= m.max_threads + 1, "at most the configured number of worker threads exists");
}
#endif
