// Contracts of RST_DEFER, TakeFunction and NoDestructor.
#include <cstdint>
#include <functional>
#include <memory>
#include <utility>

#include "rst/defer/defer.h"
#include "rst/no_destructor/no_destructor.h"
#include "rst/stl/function.h"
#include "verif.h"

namespace {
uint64_t log_ = 0;  // decimal digits of the actions run, oldest first
void Put(int d) { log_ = log_ * 10 + static_cast<uint64_t>(d); }

// Runs a scope that is left in the given way.
int Scope(unsigned way) {
  RST_DEFER([]() { Put(1); });
  RST_DEFER([way]() { if (way < 100) Put(2); });
  if (way == 0) return 10;
  for (int i = 0; i < 2; i++) {
    RST_DEFER([]() { Put(3); });
    if (way == 1) break;
    if (way == 2) continue;
    if (way == 3) return 13;
    if (way == 4) goto out;
    Put(4);
  }
out:
  RST_DEFER([]() { Put(5); });
  if (way == 5) return 15;
  {
    RST_DEFER([]() { Put(6); });
    Put(7);
  }
  Put(8);
  return 16;
}

int calls = 0, alive = 0, moved = 0;
struct Action {
  Action() { alive++; }
  Action(Action&& o) noexcept : live(o.live) { o.live = false; alive++; moved++; }
  Action(const Action&) = delete;
  ~Action() { alive--; }
  void operator()() const { if (live) calls++; else calls += 100; }
  bool live = true;
};
}  // namespace

HARNESS(DeferScopes) {
  log_ = 0;
  const unsigned way = verif::choice(7, "way");
  const int r = Scope(way);
  uint64_t w = 0;
  int wr = 0;
  switch (way) {
    case 0: w = 21; wr = 10; break;
    case 1: w = 3768521; wr = 16; break;
    case 2: w = 33768521; wr = 16; break;
    case 3: w = 321; wr = 13; break;
    case 4: w = 3768521; wr = 16; break;
    case 5: w = 4343521; wr = 15; break;
    default: w = 4343768521; wr = 16; break;
  }
  verif_check(r == wr, "the scope is left as written");
  verif_check(log_ == w, "every action runs exactly once, at the end of its scope, in reverse order");
}

HARNESS(DeferObjects) {
  calls = alive = moved = 0;
  const bool lvalue = verif::any<bool>("lvalue");
  {
    if (lvalue) {
      Action a;
      {
        RST_DEFER(a);
        verif_check(calls == 0, "nothing runs before the end of the scope");
      }
      verif_check(calls == 1, "an action given as an lvalue runs once");
    } else {
      RST_DEFER(Action());
      verif_check(calls == 0 && alive == 1, "the action is kept until the end of the scope");
    }
  }
  verif_check(calls == 1 && alive == 0, "the action runs exactly once and is destroyed");
}

HARNESS(DeferState) {
  // The action sees the variables at the end of the scope.
  int x = verif::any<int>("x");
  const int y = verif::any<int>("y");
  int seen = 0;
  {
    RST_DEFER([&]() { seen = x; });
    x = y;
  }
  verif_check(seen == y, "the action runs at the end of the scope");
}

// ---- TakeFunction
namespace {
int fdead = 0, flive = 0;
template <int kSize>
struct Callable {
  explicit Callable(int x) : x(x) { flive++; }
  Callable(const Callable& o) : x(o.x) { flive++; }
  Callable(Callable&& o) noexcept : x(o.x) { o.x = -1000; flive++; }
  ~Callable() { flive--; fdead++; }
  int operator()(int y) const { return static_cast<int>(static_cast<unsigned>(x) + static_cast<unsigned>(y)); }
  int x;
  char pad[kSize];
};
template <class F>
void TakeHolds(F callable, int x, int y) {
  flive = 1;
  std::function<int(int)> f(std::move(callable));
  std::function<int(int)> g = rst::TakeFunction(std::move(f));
  verif_check(f == nullptr, "the source is left empty");
  verif_check(g != nullptr, "the callable is returned");
  verif_check(g(y) == static_cast<int>(static_cast<unsigned>(x) + static_cast<unsigned>(y)), "the very callable");
  verif_check(flive == 2, "one callable is alive in the functions");
  f = [](int) { return 0; };
  verif_check(f != nullptr && flive == 2, "the source can be used again");
  g = nullptr;
  verif_check(flive == 1, "and is destroyed once");
}
}  // namespace

HARNESS(TakeFunctionFull) {
  const int x = verif::any<int>("x"), y = verif::any<int>("y");
  if (verif::any<bool>("large")) TakeHolds(Callable<64>(x), x, y);
  else TakeHolds(Callable<1>(x), x, y);
  verif_cover("done");
}

HARNESS(TakeFunctionEmpty) {
  std::function<int(int)> f;
  std::function<int(int)> g = rst::TakeFunction(std::move(f));
  verif_check(f == nullptr && g == nullptr, "taking an empty function");
  // Move-only arguments and a void result.
  int got = 0;
  const int v = verif::any<int>("v");
  std::function<void(std::unique_ptr<int>)> h = [&got](std::unique_ptr<int> p) { got = *p; };
  const auto k = rst::TakeFunction(std::move(h));
  verif_check(h == nullptr, "the source is left empty");
  k(std::make_unique<int>(v));
  verif_check(got == v, "the arguments are passed on");
}

// ---- NoDestructor
namespace {
int made = 0, dead = 0, kind = 0;
struct alignas(64) Obj {
  Obj() { made++; kind = 1; self = this; }
  Obj(int a, std::unique_ptr<int> b) : a(a), b(*b) { made++; kind = 2; self = this; }
  Obj(const Obj& o) : a(o.a), b(o.b) { made++; kind = 3; self = this; }
  Obj(Obj&& o) noexcept : a(o.a), b(o.b) { o.a = o.b = 0; made++; kind = 4; self = this; }
  explicit Obj(int& r) : a(r) { r++; made++; kind = 5; self = this; }
  ~Obj() { dead++; }
  int a = 0, b = 0;
  Obj* self;
};
template <class N>
void Access(N& n, int a, int b) {
  const N& c = n;
  Obj* p = n.get().get();
  verif_check(p->self == p && &*n == p && n.operator->().get() == p && c.get().get() == p && &*c == p && c.operator->().get() == p, "access yields the one object");
  verif_check(reinterpret_cast<uintptr_t>(p) % 64 == 0, "the object is aligned");
  verif_check(n->a == a && c->b == b, "built from the given arguments");
  n->a = 5;
  verif_check((*c).a == 5, "the object can be changed");
}
}  // namespace

HARNESS(NoDestructor) {
  made = dead = kind = 0;
  const int a = verif::any<int>("a"), b = verif::any<int>("b");
  const unsigned op = verif::choice(5, "op");
  int expected_dead = 0;
  if (op == 0) {
    rst::NoDestructor<Obj> n;
    verif_check(made == 1 && kind == 1, "default construction");
    Access(n, 0, 0);
  } else if (op == 1) {
    rst::NoDestructor<Obj> n(a, std::make_unique<int>(b));
    verif_check(made == 1 && kind == 2, "construction from arguments");
    Access(n, a, b);
  } else if (op == 2) {
    const Obj o(a, std::make_unique<int>(b));
    made = 0;
    rst::NoDestructor<Obj> n(o);
    verif_check(made == 1 && kind == 3 && o.a == a, "copy construction");
    Access(n, a, b);
    expected_dead = 1;
  } else if (op == 3) {
    Obj o(a, std::make_unique<int>(b));
    made = 0;
    rst::NoDestructor<Obj> n(std::move(o));
    verif_check(made == 1 && kind == 4 && o.a == 0, "move construction");
    Access(n, a, b);
    expected_dead = 1;
  } else {
    verif_assume(a < 1000000);
    int r = a;
    rst::NoDestructor<Obj> n(r);
    verif_check(made == 1 && kind == 5 && r == a + 1, "references are forwarded");
    Access(n, a, 0);
  }
  verif_check(made == 1 && dead == expected_dead, "never copied and never destroyed");
}
