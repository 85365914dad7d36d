// Contracts of Bind, DoNothing and NullFunction.
#include <functional>
#include <memory>
#include <utility>

#include "rst/bind/bind.h"
#include "rst/bind/bind_helpers.h"
#include "rst/memory/weak_ptr.h"
#include "verif.h"

using namespace std::placeholders;

namespace {
int calls = 0, ga = 0, gb = 0, gc = 0, dead = 0;
bool was_alive = false;
const void* on = nullptr;

struct Pad { long pad = 7; };
struct Target : Pad, rst::SupportsWeakPtr<Target>, std::enable_shared_from_this<Target> {
  ~Target() { dead++; }
  void None() { calls++; on = this; was_alive = dead == 0; }
  void NoneConst() const { calls++; on = this; was_alive = dead == 0; }
  void Three(int a, int b, int c) { calls++; on = this; ga = a; gb = b; gc = c; was_alive = dead == 0; }
  int Own(std::unique_ptr<int> p, const int& r) { calls++; on = this; ga = *p; gb = r; return 7; }
  void Ref(int& x) { calls++; on = this; x++; }
  void Drop() { calls++; if (drop) drop->reset(); was_alive = dead == 0; mark = 9; }
  virtual void Virt(int a) { calls++; ga = a; on = nullptr; }
  std::shared_ptr<Target>* drop = nullptr;
  int mark = 0;
};
struct Derived : Target {
  void Virt(int a) override { calls++; ga = a; on = this; }
};
void Reset() { calls = ga = gb = gc = dead = 0; on = nullptr; was_alive = false; }

// An object held by either kind of pointer.
struct Holder {
  std::shared_ptr<Target> p = std::make_shared<Target>();
  void Kill() { p.reset(); }
};
template <bool kStd>
auto Weak(Holder& h) {
  if constexpr (kStd) return std::weak_ptr<Target>(h.p);
  else return h.p->AsWeakPtr();
}

template <bool kStd>
void Run() {
  Reset();
  Holder h;
  const void* const obj = h.p.get();
  const bool kill = verif::any<bool>("destroyed before the call");
  int a = verif::any<int>("a"), b = verif::any<int>("b"), c = verif::any<int>("c");
  const int a0 = a, b0 = b, c0 = c;
  switch (verif::choice(9, "form")) {
    case 0: {
      auto f = rst::Bind(&Target::None, Weak<kStd>(h));
      verif_check(calls == 0, "binding calls nothing");
      if (kill) h.Kill();
      f();
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) verif_check(on == obj && was_alive, "on that object");
      if (!kill) h.Kill();
      f();
      verif_check(calls == !kill, "nothing after it is gone");
      break;
    }
    case 1: {
      const auto f = rst::Bind(&Target::NoneConst, Weak<kStd>(h));
      if (kill) h.Kill();
      f();
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) f();
      verif_check(calls == 2 * !kill, "once for each call");
      break;
    }
    case 2: {
      // All bound.
      auto f = rst::Bind(&Target::Three, Weak<kStd>(h), a, b, c);
      a ^= 1; b ^= 1; c ^= 1;
      if (kill) h.Kill();
      f();
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) verif_check(ga == a0 && gb == b0 && gc == c0, "with the bound arguments in order");
      f();
      if (!kill) verif_check(calls == 2 && ga == a0 && gb == b0 && gc == c0, "the same again");
      break;
    }
    case 3: {
      // Call-time arguments, reordered.
      auto f = rst::Bind(&Target::Three, Weak<kStd>(h), _2, b, _1);
      if (kill) h.Kill();
      f(a, c);
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) verif_check(ga == c && gb == b && gc == a, "bound and call-time arguments in order");
      break;
    }
    case 4: {
      std::function<void(int, int)> f = rst::Bind(&Target::Three, Weak<kStd>(h), _1, b, _2);
      if (kill) h.Kill();
      f(a, c);
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) verif_check(ga == a && gb == b && gc == c, "through std::function");
      std::function<void(int, int)> g = f;
      g(c, a);
      if (!kill) verif_check(calls == 2 && ga == c && gb == b && gc == a, "copies work alike");
      else verif_check(calls == 0, "copies do nothing either");
      break;
    }
    case 5: {
      // Move-only call-time arguments; results are dropped.
      auto f = rst::Bind(&Target::Own, Weak<kStd>(h), _1, b);
      if (kill) h.Kill();
      f(std::make_unique<int>(a));
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) verif_check(ga == a && gb == b, "move-only arguments are passed on");
      break;
    }
    case 6: {
      verif_assume(a < 1000000);
      auto f = rst::Bind(&Target::Ref, Weak<kStd>(h), std::ref(a));
      if (kill) h.Kill();
      f();
      verif_check(a == a0 + !kill, "arguments by reference");
      break;
    }
    case 7: {
      auto f = rst::Bind([a](Target* const t, int x) { t->Three(a, x, 3); }, h.p->AsWeakPtr(), b);
      auto g = rst::Bind([a](const auto& t, int x) { t->Three(a, x, 3); }, std::weak_ptr<Target>(h.p), b);
      if (kill) h.Kill();
      kStd ? g() : f();
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) verif_check(ga == a && gb == b && gc == 3 && on == obj, "any callable on the object");
      break;
    }
    default: {
      h.p = std::make_shared<Derived>();
      const void* const d = h.p.get();
      dead = 0;
      auto f = rst::Bind(&Target::Virt, Weak<kStd>(h), _1);
      auto g = std::move(f);
      if (kill) h.Kill();
      g(a);
      verif_check(calls == !kill, "once and only when alive");
      if (!kill) verif_check(ga == a && on == d, "virtual methods of the object");
    }
  }
  verif_cover("done");
}
}  // namespace

HARNESS(WeakPtr) { Run<false>(); verif_cover("done"); }
HARNESS(StdWeakPtr) { Run<true>(); verif_cover("done"); }

HARNESS(StaysAliveDuringCall) {
  Reset();
  auto p = std::make_shared<Target>();
  p->drop = &p;
  std::weak_ptr<Target> w = p;
  auto f = rst::Bind(&Target::Drop, std::weak_ptr<Target>(w));
  f();
  verif_check(calls == 1 && was_alive, "the object stays alive while the call runs");
  verif_check(dead == 1 && w.expired(), "and is not kept longer");
  f();
  verif_check(calls == 1, "nothing after it is gone");
}

HARNESS(BindingKeepsNothingAlive) {
  Reset();
  auto p = std::make_shared<Target>();
  {
    auto f = rst::Bind(&Target::None, std::weak_ptr<Target>(p));
    auto g = f;
    p.reset();
    verif_check(dead == 1, "a bound function does not keep the object alive");
    f();
    g();
  }
  verif_check(calls == 0 && dead == 1, "nothing after it is gone");
}

HARNESS(NullWeak) {
  Reset();
  auto f = rst::Bind(&Target::None, rst::WeakPtr<Target>());
  auto g = rst::Bind(&Target::None, std::weak_ptr<Target>());
  f();
  g();
  verif_check(calls == 0, "null pointers call nothing");
}

HARNESS(Helpers) {
  const int a = verif::any<int>("a");
  std::function<void()> f = rst::DoNothing();
  std::function<void(int, std::unique_ptr<int>)> g = rst::DoNothing();
  const auto h = rst::DoNothing::Function<int, const int&>();
  verif_check(f != nullptr && g != nullptr && h != nullptr, "DoNothing converts to a callable");
  int x = a;
  f();
  g(a, std::make_unique<int>(a));
  h(a, x);
  verif_check(x == a, "that does nothing");
  std::function<void()> n = rst::NullFunction();
  std::function<int(int, std::unique_ptr<int>)> m = rst::NullFunction();
  verif_check(n == nullptr && m == nullptr, "NullFunction converts to an empty function");
  f = rst::NullFunction();
  n = rst::DoNothing();
  verif_check(f == nullptr && n != nullptr, "also by assignment");
}
