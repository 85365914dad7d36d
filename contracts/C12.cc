// Contracts of rst::NotNull and rst::Nullable.  A Nullable's whole state is
// (pointer, was compared); every harness starts from every such state, so the
// per-operation contracts cover every history.
#include <memory>
#include <utility>

#include "rst/not_null/not_null.h"
#include "verif.h"

using rst::NotNull;
using rst::Nullable;

namespace {
int live = 0, destroyed = 0;
struct A { int a = 1; virtual ~A() {} };
struct B { int b = 2; virtual ~B() {} };
struct D : A, B {
  D() { live++; }
  ~D() override { live--; destroyed++; }
  int d = 3;
};

D* NewMaybe(const char* name) { return verif::any<bool>(name) ? new D : nullptr; }

// A Nullable in an arbitrary state.
template <class P>
void MaybeCompare(Nullable<P>& n, bool compared) {
  if (compared) (void)(n == nullptr);
}
void Reset() { live = destroyed = 0; }
}  // namespace

// ---- raw pointers
HARNESS(NotNullRaw) {
  Reset();
  D x, y;
  D* p = verif::any<bool>("p") ? &x : nullptr;
  verif_expect_abort(p == nullptr, "NotNull(raw) aborts iff null");
  NotNull<D*> n(p);
  verif_end_expect();
  verif_check(n.get() == p && n.operator->() == p && &*n == p && &n[0] == p, "yields exactly the pointer");
  NotNull<B*> up(n);
  verif_check(up.get() == static_cast<B*>(&x) && up->b == 2, "conversion to base");
  NotNull<D*> c(n), m(std::move(c));
  verif_check(m.get() == &x, "copy and move construction");
  D* q = verif::any<bool>("q") ? &y : nullptr;
  verif_expect_abort(q == nullptr, "NotNull = raw aborts iff null");
  n = q;
  verif_end_expect();
  verif_check(n.get() == &y && m.get() == &x, "assignment changes only the target");
  m = n;
  verif_check(m.get() == &y, "copy assignment");
  NotNull<B*> b2(&x);
  b2 = n;
  verif_check(b2.get() == static_cast<B*>(&y), "converting assignment");
  b2 = std::move(up);
  verif_check(b2.get() == static_cast<B*>(&x), "move assignment");
}

HARNESS(NullableRaw) {
  Reset();
  D x, y;
  D* p = verif::any<bool>("p") ? &x : nullptr;
  const bool compared = verif::any<bool>("compared");
  Nullable<D*> n(p);
  MaybeCompare(n, compared);
  verif_check(n.get() == p, "get never asserts and yields the pointer");
  const unsigned op = verif::choice(4, "op");
  verif_expect_abort(!compared || p == nullptr, "use of a Nullable aborts iff null or not compared");
  if (op == 0) verif_check(&*n == p, "operator*");
  if (op == 1) verif_check(n.operator->() == p, "operator->");
  if (op == 2) verif_check(&n[0] == p, "operator[]");
  if (op == 3) {
    NotNull<D*> nn(n);
    verif_check(nn.get() == p, "to NotNull");
  }
  verif_end_expect();
}

HARNESS(NullableRawAssign) {
  Reset();
  D x, y;
  D* p = verif::any<bool>("p") ? &x : nullptr;
  D* q = verif::any<bool>("q") ? &y : nullptr;
  Nullable<D*> n(p);
  MaybeCompare(n, verif::any<bool>("compared"));
  Nullable<D*> o(q);
  const bool oc = verif::any<bool>("other compared");
  MaybeCompare(o, oc);
  const unsigned op = verif::choice(7, "op");
  if (op == 0) n = q;
  if (op == 1) n = o;
  if (op == 2) n = std::move(o);
  if (op == 3) { n = nullptr; q = nullptr; }
  if (op == 4) { NotNull<D*> nn(&y); n = nn; q = &y; }
  if (op == 5) { NotNull<D*> nn(&y); n = std::move(nn); q = &y; }
  if (op == 6) { Nullable<D*> r(q); n = r; }
  verif_check(n.get() == q, "assignment takes the new pointer");
  const bool again = verif::any<bool>("again");
  MaybeCompare(n, again);
  verif_expect_abort(!again || q == nullptr, "assigned Nullable must be compared again");
  verif_check(&*n == q, "use after assignment");
  verif_end_expect();
}

HARNESS(NullableRawConstruct) {
  Reset();
  D y;
  D* q = verif::any<bool>("q") ? &y : nullptr;
  Nullable<D*> o(q);
  const bool oc = verif::any<bool>("other compared");
  MaybeCompare(o, oc);
  const unsigned op = verif::choice(6, "op");
  const bool again = verif::any<bool>("again");
  if (op == 0 || op == 1) {
    // the same type: the check carries over
    Nullable<D*> n(op == 0 ? Nullable<D*>(o) : Nullable<D*>(std::move(o)));
    verif_check(n.get() == q, "copy or move construction");
    MaybeCompare(n, again);
    verif_expect_abort(!(again || oc) || q == nullptr, "a copy counts as compared iff the source was");
    verif_check(n.operator->() == q, "use of the copy");
    verif_end_expect();
  } else {
    NotNull<D*> nn(&y);
    Nullable<B*> n = op == 2 ? Nullable<B*>(o) : op == 3 ? Nullable<B*>(std::move(o)) : op == 4 ? Nullable<B*>(nn) : Nullable<B*>();
    B* want = op == 2 || op == 3 ? static_cast<B*>(q) : op == 4 ? static_cast<B*>(&y) : nullptr;
    verif_check(n.get() == want, "converting construction");
    MaybeCompare(n, again);
    verif_expect_abort(!again || want == nullptr, "a converted Nullable must be compared");
    verif_check(n.operator->() == want, "use of the converted");
    verif_end_expect();
  }
}

HARNESS(NotNullFromNullableAssign) {
  Reset();
  D x, y;
  D* q = verif::any<bool>("q") ? &y : nullptr;
  Nullable<D*> o(q);
  const bool oc = verif::any<bool>("compared");
  MaybeCompare(o, oc);
  NotNull<B*> n(&x);
  const bool mv = verif::any<bool>("move");
  verif_expect_abort(!oc || q == nullptr, "NotNull = Nullable aborts iff null or not compared");
  if (mv) n = std::move(o); else n = o;
  verif_end_expect();
  verif_check(n.get() == static_cast<B*>(&y), "NotNull = Nullable");
}

HARNESS(Compare) {
  Reset();
  D arr[2];
  D* p = verif::any<bool>("p") ? &arr[0] : verif::any<bool>("p1") ? &arr[1] : nullptr;
  D* q = verif::any<bool>("q") ? &arr[0] : verif::any<bool>("q1") ? &arr[1] : nullptr;
  Nullable<D*> a(p), b(q);
  verif_check((a == b) == (p == q) && (a != b) == (p != q), "Nullable == Nullable");
  verif_check((a == q) == (p == q) && (q == a) == (p == q) && (a != q) == (p != q) && (q != a) == (p != q), "Nullable == raw");
  verif_check((a == nullptr) == (p == nullptr) && (nullptr == a) == (p == nullptr) && (a != nullptr) == (p != nullptr) && (nullptr != a) == (p != nullptr), "Nullable == nullptr");
  if (p != nullptr && q != nullptr) {
    NotNull<D*> c(p), d(q);
    verif_check((c == d) == (p == q) && (c != d) == (p != q) && (c < d) == (p < q), "NotNull == NotNull");
    verif_check((c == q) == (p == q) && (q == c) == (p == q) && (c != q) == (p != q) && (q != c) == (p != q), "NotNull == raw");
    verif_check((a == d) == (p == q) && (d == a) == (p == q) && (a != d) == (p != q) && (d != a) == (p != q) && (a < b) == (p < q), "mixed comparison");
    verif_check(std::hash<NotNull<D*>>()(c) == std::hash<D*>()(p) && std::hash<Nullable<D*>>()(a) == std::hash<D*>()(p), "hash of the pointer");
  }
}

// ---- unique_ptr
HARNESS(NotNullUnique) {
  Reset();
  D* p = NewMaybe("p");
  D* q = NewMaybe("q");
  {
    std::unique_ptr<D> u(p), v(q);
    verif_expect_abort(p == nullptr, "NotNull(unique_ptr) aborts iff null");
    NotNull<std::unique_ptr<D>> n(std::move(u));
    verif_end_expect();
    verif_check(n.get() == p && n.operator->() == p && &*n == p && u == nullptr, "takes over the object");
    NotNull<std::unique_ptr<A>> base(std::move(n));
    verif_check(base.get() == static_cast<A*>(p) && destroyed == 0, "conversion to base hands over");
    verif_expect_abort(q == nullptr, "NotNull = unique_ptr aborts iff null");
    base = std::move(v);
    verif_end_expect();
    verif_check(base.get() == static_cast<A*>(q) && destroyed == 1 && live == 1, "assignment destroys the old object once");
    std::unique_ptr<A> t = std::move(base).Take();
    verif_check(t.get() == static_cast<A*>(q) && destroyed == 1, "Take hands over");
  }
  verif_check(live == 0 && destroyed == 2, "everything destroyed exactly once");
}

HARNESS(NullableUnique) {
  Reset();
  D* p = NewMaybe("p");
  const bool compared = verif::any<bool>("compared");
  const unsigned op = verif::choice(7, "op");
  {
    Nullable<std::unique_ptr<D>> n{std::unique_ptr<D>(p)};
    MaybeCompare(n, compared);
    verif_check(n.get() == p, "get");
    if (op < 4) {
      verif_expect_abort(!compared || p == nullptr, "use aborts iff null or not compared");
      if (op == 0) verif_check(&*n == p, "operator*");
      if (op == 1) verif_check(n.operator->() == p, "operator->");
      if (op == 2) {
        NotNull<std::unique_ptr<A>> nn(std::move(n));
        verif_check(nn.get() == static_cast<A*>(p) && destroyed == 0, "to NotNull");
      }
      if (op == 3) {
        NotNull<std::unique_ptr<A>> nn(std::make_unique<A>());
        nn = std::move(n);
        verif_check(nn.get() == static_cast<A*>(p) && destroyed == 0, "NotNull = Nullable");
      }
      verif_end_expect();
    } else if (op == 4) {
      Nullable<std::unique_ptr<A>> m(std::move(n));
      verif_check(m.get() == static_cast<A*>(p) && n.get() == nullptr, "conversion hands over");
      std::unique_ptr<A> t = std::move(m).Take();
      verif_check(t.get() == static_cast<A*>(p), "Take hands over");
    } else if (op == 5) {
      n = nullptr;
      verif_check(n.get() == nullptr && live == 0, "= nullptr destroys");
    } else {
      D* q = NewMaybe("q");
      n = std::unique_ptr<D>(q);
      verif_check(n.get() == q && live == (q != nullptr), "assignment destroys the old object");
      const bool again = verif::any<bool>("again");
      MaybeCompare(n, again);
      verif_expect_abort(!again || q == nullptr, "assigned Nullable must be compared again");
      verif_check(&*n == q, "use after assignment");
      verif_end_expect();
    }
  }
  verif_check(live == 0, "everything destroyed exactly once");
}

// ---- shared_ptr
HARNESS(NotNullShared) {
  Reset();
  D* p = NewMaybe("p");
  {
    std::shared_ptr<D> u(p);
    const bool keep = verif::any<bool>("keep");
    std::shared_ptr<D> kept = keep ? u : nullptr;
    verif_expect_abort(p == nullptr, "NotNull(shared_ptr) aborts iff null");
    NotNull<std::shared_ptr<D>> n(std::move(u));
    verif_end_expect();
    verif_check(n.get() == p && n.operator->() == p && &*n == p, "yields the object");
    NotNull<std::shared_ptr<A>> b(n);
    verif_check(b.get() == static_cast<A*>(p) && n.get() == p, "copy to base shares");
    std::shared_ptr<A> t = std::move(b).Take();
    verif_check(t.use_count() == (keep ? 3 : 2) && destroyed == 0, "ownership counted once per holder");
    NotNull<std::shared_ptr<A>> m(std::move(n));
    verif_check(t.use_count() == (keep ? 3 : 2), "move keeps the count");
    D* q = new D;
    m = std::shared_ptr<D>(q);
    verif_check(m.get() == static_cast<A*>(q) && t.use_count() == (keep ? 2 : 1), "assignment releases the old one");
  }
  verif_check(live == 0 && destroyed == 2, "everything destroyed exactly once");
}

HARNESS(NullableShared) {
  Reset();
  D* p = NewMaybe("p");
  const bool compared = verif::any<bool>("compared");
  const unsigned op = verif::choice(6, "op");
  {
    Nullable<std::shared_ptr<D>> n{std::shared_ptr<D>(p)};
    MaybeCompare(n, compared);
    verif_check(n.get() == p, "get");
    if (op < 3) {
      verif_expect_abort(!compared || p == nullptr, "use aborts iff null or not compared");
      if (op == 0) verif_check(&*n == p, "operator*");
      if (op == 1) verif_check(n.operator->() == p, "operator->");
      if (op == 2) {
        NotNull<std::shared_ptr<A>> nn(n);
        verif_check(nn.get() == static_cast<A*>(p) && n.get() == p, "to NotNull shares");
      }
      verif_end_expect();
    } else if (op == 3) {
      Nullable<std::shared_ptr<A>> m(n);
      verif_check(m.get() == static_cast<A*>(p) && n.get() == p, "conversion shares");
      std::shared_ptr<A> t = std::move(m).Take();
      verif_check(t.use_count() == 2, "count");
    } else if (op == 4) {
      n = nullptr;
      verif_check(n.get() == nullptr && live == 0, "= nullptr releases");
    } else {
      D* q = NewMaybe("q");
      Nullable<std::shared_ptr<D>> o{std::shared_ptr<D>(q)};
      MaybeCompare(o, verif::any<bool>("other compared"));
      n = o;
      verif_check(n.get() == q && o.get() == q && live == (q != nullptr), "assignment shares and releases");
      const bool again = verif::any<bool>("again");
      MaybeCompare(n, again);
      verif_expect_abort(!again || q == nullptr, "assigned Nullable must be compared again");
      verif_check(&*n == q, "use after assignment");
      verif_end_expect();
    }
  }
  verif_check(live == 0, "everything destroyed exactly once");
}

// ---- the matrix of every construction and assignment, same type and converted
namespace {
template <class P> struct Kind;
template <class T> struct Kind<T*> {
  static constexpr bool copy = true, owns = false;
  using Elem = T;
  static T* Make(D* p) { return p; }
};
template <class T> struct Kind<std::unique_ptr<T>> {
  static constexpr bool copy = false, owns = true;
  using Elem = T;
  static std::unique_ptr<T> Make(D* p) { return std::unique_ptr<T>(p); }
};
template <class T> struct Kind<std::shared_ptr<T>> {
  static constexpr bool copy = true, owns = true;
  using Elem = T;
  static std::shared_ptr<T> Make(D* p) { return std::shared_ptr<T>(p); }
};

// Objects that end with the matrix when a raw pointer does not own them.
struct Holder {
  ~Holder() { delete own; }
  D* own = nullptr;
};
template <class P>
D* NewFor(bool present, Holder& h) {
  if (!present) return nullptr;
  D* p = new D;
  if (!Kind<P>::owns) h.own = p;
  return p;
}

// Nullable<P> = ...: the pointer arrives, the old object goes, nothing counts
// as compared any more.
template <class P, class S>
void NullableAssignMatrix() {
  using E = typename Kind<P>::Elem;
  Reset();
  {
    Holder hp, hq;
    D* p = NewFor<P>(verif::any<bool>("p"), hp);
    const bool hasq = verif::any<bool>("q");
    const bool oc = verif::any<bool>("other compared"), again = verif::any<bool>("again");
    const unsigned op = verif::choice(5, "op");
    verif_assume(hasq || op < 3);
    D* q = NewFor<P>(hasq, hq);
    Nullable<P> n{Kind<P>::Make(p)};
    MaybeCompare(n, verif::any<bool>("compared"));
    bool sourceKept = false;
    {
      if (op == 0) {
        n = Kind<S>::Make(q);
      } else if (op < 3) {
        Nullable<S> o{Kind<S>::Make(q)};
        MaybeCompare(o, oc);
        if constexpr (Kind<P>::copy) {
          if (op == 1) { n = o; sourceKept = o.get() == q; } else { n = std::move(o); sourceKept = true; }
        } else {
          n = std::move(o);
          sourceKept = o.get() == nullptr;
        }
      } else {
        NotNull<S> o{Kind<S>::Make(q)};
        if constexpr (Kind<P>::copy) {
          if (op == 3) { n = o; sourceKept = o.get() == q; } else { n = std::move(o); sourceKept = true; }
        } else {
          n = std::move(o);
          sourceKept = true;
        }
      }
    }
    verif_check(n.get() == static_cast<E*>(q), "assignment takes exactly the new pointer");
    verif_check(op == 0 || sourceKept, "the source of a copy stays, the source of an owning move is emptied");
    if (Kind<P>::owns) verif_check(live == (hasq ? 1 : 0), "the old object is destroyed, the new one is alive");
    MaybeCompare(n, again);
    verif_expect_abort(!again || q == nullptr, "an assigned Nullable aborts on use iff null or not compared since");
    verif_check(n.operator->() == static_cast<E*>(q), "use after the assignment");
    verif_end_expect();
  }
  verif_check(live == 0, "nothing leaks");
}

template <class P, class S>
void NullableConstructMatrix() {
  using E = typename Kind<P>::Elem;
  Reset();
  {
    Holder hq;
    const bool hasq = verif::any<bool>("q");
    const bool oc = verif::any<bool>("other compared"), again = verif::any<bool>("again");
    const unsigned op = verif::choice(5, "op");
    verif_assume(hasq || op < 3);
    D* q = NewFor<P>(hasq, hq);
    auto use = [&](Nullable<P>& n, bool carried) {
      verif_check(n.get() == static_cast<E*>(q), "construction takes exactly the pointer");
      if (Kind<P>::owns) verif_check(live == (hasq ? 1 : 0), "the object is alive");
      MaybeCompare(n, again);
      verif_expect_abort(!(again || carried) || q == nullptr, "a constructed Nullable aborts on use iff null or not compared");
      verif_check(n.operator->() == static_cast<E*>(q), "use after the construction");
      verif_end_expect();
    };
    constexpr bool same = std::is_same_v<P, S>;
    if (op == 0) {
      Nullable<P> n{Kind<S>::Make(q)};
      use(n, false);
    } else if (op < 3) {
      Nullable<S> o{Kind<S>::Make(q)};
      MaybeCompare(o, oc);
      if constexpr (Kind<P>::copy) {
        if (op == 1) { Nullable<P> n(o); use(n, same && oc); } else { Nullable<P> n(std::move(o)); use(n, same && oc); }
      } else {
        Nullable<P> n(std::move(o));
        verif_check(o.get() == nullptr, "ownership is handed over");
        use(n, same && oc);
      }
    } else {
      NotNull<S> o{Kind<S>::Make(q)};
      if constexpr (Kind<P>::copy) {
        if (op == 3) { Nullable<P> n(o); verif_check(o.get() == q, "the source of a copy stays"); use(n, false); } else { Nullable<P> n(std::move(o)); use(n, false); }
      } else {
        Nullable<P> n(std::move(o));
        use(n, false);
      }
    }
  }
  verif_check(live == 0, "nothing leaks");
}

// NotNull<P>(...) and NotNull<P> = ...
template <class P, class S>
void NotNullMatrix() {
  using E = typename Kind<P>::Elem;
  Reset();
  {
    Holder hp, hq;
    const bool assign = verif::any<bool>("assign"), hasq = verif::any<bool>("q"), oc = verif::any<bool>("other compared");
    const unsigned op = verif::choice(5, "op");
    verif_assume(hasq || op < 3);
    D* q = NewFor<P>(hasq, hq);
    D* p = assign ? NewFor<P>(true, hp) : nullptr;
    auto check = [&](const NotNull<P>& n, bool kept) {
      verif_check(n.get() == static_cast<E*>(q) && n.operator->() == static_cast<E*>(q) && &*n == static_cast<E*>(q), "yields exactly the new pointer");
      verif_check(kept, "the source of a copy stays, the source of an owning move is emptied");
      if (Kind<P>::owns) verif_check(live == 1, "the old object is destroyed, the new one is alive");
    };
    if (assign) {
      NotNull<P> n{Kind<P>::Make(p)};
      if (op == 0) {
        verif_expect_abort(q == nullptr, "NotNull = raw or smart pointer aborts iff null");
        n = Kind<S>::Make(q);
        verif_end_expect();
        check(n, true);
      } else if (op < 3) {
        Nullable<S> o{Kind<S>::Make(q)};
        MaybeCompare(o, oc);
        verif_expect_abort(!oc || q == nullptr, "NotNull = Nullable aborts iff null or not compared");
        if constexpr (Kind<P>::copy) {
          if (op == 1) n = o; else n = std::move(o);
          verif_end_expect();
          check(n, op != 1 || o.get() == q);
        } else {
          n = std::move(o);
          verif_end_expect();
          check(n, o.get() == nullptr);
        }
      } else {
        NotNull<S> o{Kind<S>::Make(q)};
        if constexpr (Kind<P>::copy) {
          if (op == 3) n = o; else n = std::move(o);
          check(n, op != 3 || o.get() == q);
        } else {
          n = std::move(o);
          check(n, true);
        }
      }
    } else if (op == 0) {
      verif_expect_abort(q == nullptr, "NotNull(raw or smart pointer) aborts iff null");
      NotNull<P> n{Kind<S>::Make(q)};
      verif_end_expect();
      check(n, true);
    } else if (op < 3) {
      Nullable<S> o{Kind<S>::Make(q)};
      MaybeCompare(o, oc);
      verif_expect_abort(!oc || q == nullptr, "NotNull(Nullable) aborts iff null or not compared");
      if constexpr (Kind<P>::copy) {
        if (op == 1) {
          NotNull<P> n(o);
          verif_end_expect();
          check(n, o.get() == q);
        } else {
          NotNull<P> n(std::move(o));
          verif_end_expect();
          check(n, true);
        }
      } else {
        NotNull<P> n(std::move(o));
        verif_end_expect();
        check(n, o.get() == nullptr);
      }
    } else {
      NotNull<S> o{Kind<S>::Make(q)};
      if constexpr (Kind<P>::copy) {
        if (op == 3) { NotNull<P> n(o); check(n, o.get() == q); } else { NotNull<P> n(std::move(o)); check(n, true); }
      } else {
        NotNull<P> n(std::move(o));
        check(n, true);
      }
    }
  }
  verif_check(live == 0, "nothing leaks");
}
}  // namespace

#define MATRIX(name, P, S)                                                  \
  HARNESS(name##NullableAssign) { NullableAssignMatrix<P, S>(); verif_cover("matrix done"); }       \
  HARNESS(name##NullableConstruct) { NullableConstructMatrix<P, S>(); verif_cover("matrix done"); } \
  HARNESS(name##NotNull) { NotNullMatrix<P, S>(); verif_cover("matrix done"); }
MATRIX(Raw, D*, D*)
MATRIX(RawBase, B*, D*)
MATRIX(Unique, std::unique_ptr<D>, std::unique_ptr<D>)
MATRIX(UniqueBase, std::unique_ptr<B>, std::unique_ptr<D>)
MATRIX(Shared, std::shared_ptr<D>, std::shared_ptr<D>)
MATRIX(SharedBase, std::shared_ptr<B>, std::shared_ptr<D>)
