// Contracts of WeakPtr: every state of source and target, every operation.
#include <memory>
#include <type_traits>
#include <utility>

#include "rst/memory/weak_ptr.h"
#include "verif.h"

using rst::WeakPtr;

namespace {
struct Pad { long pad = 7; };
struct B : rst::SupportsWeakPtr<B> {
  int b = 1;
};
struct D : Pad, B {  // the base is not at offset zero
  int d = 2;
};

template <class T>
T* Get(const WeakPtr<T>& w) {
  auto n = w.GetNullable();
  T* const p = n.get();
  verif_check((n == nullptr) == (p == nullptr), "the result can be compared");
  return p;
}

// A weak pointer in any state, and what it must yield.
// 0 default, 1 from nullptr, 2 to an object that is alive, 3 to a dead object, 4 moved from.
struct World {
  std::unique_ptr<D> x = std::make_unique<D>(), y = std::make_unique<D>();
};
template <class T>
T* Make(unsigned state, D* obj, WeakPtr<T>* out) {
  switch (state) {
    case 0: return nullptr;
    case 1: *out = WeakPtr<T>(nullptr); return nullptr;
    case 2: *out = rst::AsWeakPtr(obj); return obj;
    case 3: {
      D dead;
      *out = rst::AsWeakPtr(&dead);
      verif_check(Get(*out) == static_cast<T*>(&dead), "yields the object while it lives");
      return nullptr;
    }
    default: {
      *out = rst::AsWeakPtr(obj);
      WeakPtr<T> taken(std::move(*out));
      verif_check(Get(taken) == static_cast<T*>(obj), "the target of a move yields the object");
      return nullptr;
    }
  }
}
template <class T>
void After(const WeakPtr<T>& w, T* want, World* o) {
  verif_check(Get(w) == want, "yields the object while it lives, else null");
  verif_check(Get(w) == want, "and again");
  o->x.reset();
  verif_check(Get(w) == (want != nullptr && o->y != nullptr && static_cast<const volatile void*>(want) == static_cast<const volatile void*>(static_cast<T*>(o->y.get())) ? want : nullptr), "null once the object is destroyed");
  o->y.reset();
  verif_check(Get(w) == nullptr, "null when all objects are destroyed");
}

template <class T, class U>
void Construct() {
  World o;
  WeakPtr<U> s;
  U* const sw = Make<U>(verif::choice(5, "source"), o.x.get(), &s);
  if (verif::any<bool>("move")) {
    WeakPtr<T> t(std::move(s));
    verif_check(Get(s) == nullptr, "a moved-from weak pointer yields null");
    After<T>(t, sw, &o);
  } else {
    WeakPtr<T> t(s);
    verif_check(Get(s) == sw, "a copied weak pointer is unchanged");
    After<T>(t, sw, &o);
    verif_check(Get(s) == nullptr, "and follows the same object");
  }
}
template <class T, class U>
void Assign() {
  World o;
  WeakPtr<U> s;
  WeakPtr<T> t;
  U* const sw = Make<U>(verif::choice(5, "source"), o.x.get(), &s);
  (void)Make<T>(verif::choice(5, "target"), verif::any<bool>("same object") ? o.x.get() : o.y.get(), &t);
  if (verif::any<bool>("move")) {
    WeakPtr<T>& r = (t = std::move(s));
    verif_check(&r == &t, "returns itself");
    verif_check(Get(s) == nullptr, "a moved-from weak pointer yields null");
  } else {
    WeakPtr<T>& r = (t = s);
    verif_check(&r == &t, "returns itself");
    verif_check(Get(s) == sw, "a copied weak pointer is unchanged");
  }
  After<T>(t, sw, &o);
}
}  // namespace

HARNESS(ConstructSame) { Construct<D, D>(); verif_cover("done"); }
HARNESS(ConstructBase) { Construct<B, D>(); verif_cover("done"); }
HARNESS(ConstructConst) { Construct<const D, D>(); verif_cover("done"); }
HARNESS(ConstructConstBase) { Construct<const B, D>(); verif_cover("done"); }
HARNESS(AssignSame) { Assign<D, D>(); verif_cover("done"); }
HARNESS(AssignBase) { Assign<B, D>(); verif_cover("done"); }
HARNESS(AssignConst) { Assign<const D, D>(); verif_cover("done"); }
HARNESS(AssignConstBase) { Assign<const B, D>(); verif_cover("done"); }

HARNESS(SelfAndNull) {
  World o;
  WeakPtr<D> t;
  D* const w = Make<D>(verif::choice(5, "state"), o.x.get(), &t);
  if (verif::any<bool>("null")) {
    WeakPtr<D>& r = (t = nullptr);
    verif_check(&r == &t && Get(t) == nullptr, "nulled");
    o.x.reset();
    verif_check(Get(t) == nullptr, "stays null");
    t = rst::AsWeakPtr(o.y.get());
    verif_check(Get(t) == o.y.get(), "can be used again");
  } else {
    WeakPtr<D>& same = t;
    t = same;
    After<D>(t, w, &o);
  }
  WeakPtr<D> n(nullptr), d;
  verif_check(Get(n) == nullptr && Get(d) == nullptr, "default and null yield null");
}

HARNESS(Sources) {
  // Every way to obtain a weak pointer from an object.
  World o;
  const D* const cx = o.x.get();
  WeakPtr<B> a = o.x->AsWeakPtr();
  WeakPtr<const B> b = cx->AsWeakPtr();
  WeakPtr<D> c = rst::AsWeakPtr(o.x.get());
  WeakPtr<const D> d = rst::AsWeakPtr(cx);
  WeakPtr<D> e = rst::AsWeakPtr(rst::NotNull<D*>(o.x.get()));
  WeakPtr<B> f = rst::AsWeakPtr(static_cast<B*>(o.x.get()));
  verif_check(Get(a) == o.x.get() && Get(b) == cx && Get(f) == o.x.get(), "from the object itself");
  verif_check(Get(c) == o.x.get() && Get(d) == cx && Get(e) == o.x.get(), "with the derived type");
  verif_check(Get(c)->d == 2 && Get(a)->b == 1 && Get(d)->pad == 7, "the object can be used");
  WeakPtr<D> other = rst::AsWeakPtr(o.y.get());
  o.x.reset();
  verif_check(Get(a) == nullptr && Get(b) == nullptr && Get(c) == nullptr && Get(d) == nullptr && Get(e) == nullptr && Get(f) == nullptr, "all null afterwards");
  verif_check(Get(other) == o.y.get(), "other objects are not affected");
}

HARNESS(ReusedStorage) {
  // A new object in the same storage is not the old one.
  alignas(D) char mem[sizeof(D)];
  D* p = new (mem) D;
  WeakPtr<D> w = rst::AsWeakPtr(p);
  verif_check(Get(w) == p, "alive");
  p->~D();
  D* q = new (mem) D;
  verif_check(Get(w) == nullptr, "a new object in the same storage is not it");
  WeakPtr<D> v = rst::AsWeakPtr(q);
  verif_check(Get(v) == q, "and has its own weak pointers");
  q->~D();
  verif_check(Get(v) == nullptr, "null afterwards");
}

HARNESS(DuringDestruction) {
  // The object's own weak pointers outlive it.
  struct S : rst::SupportsWeakPtr<S> {
    ~S() { *seen = w->GetNullable().get(); }
    WeakPtr<S>* w = nullptr;
    S** seen = nullptr;
  };
  S* seen = nullptr;
  WeakPtr<S> w;
  S* addr = nullptr;
  {
    S s;
    w = s.AsWeakPtr();
    s.w = &w;
    s.seen = &seen;
    addr = &s;
  }
  verif_check(seen == addr, "still the object in its destructor's body");
  verif_check(Get(w) == nullptr, "null afterwards");
}

static_assert(!std::is_copy_constructible_v<D> && !std::is_copy_assignable_v<D>, "objects with weak pointers are not copied");
static_assert(!std::is_move_constructible_v<D> && !std::is_move_assignable_v<D>, "nor moved");
