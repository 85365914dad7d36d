// Contracts of IsA and dyn_cast.  The chain is proved by induction: for a class
// whose parent answers anything at all (Any), and for concrete chains of the
// library's own error classes.
#include <string>
#include <type_traits>

#include "rst/files/file_utils.h"
#include "rst/logger/log_error.h"
#include "rst/rtti/rtti.h"
#include "rst/status/status.h"
#include "verif.h"

using rst::dyn_cast;
using rst::ErrorInfo;
using rst::ErrorInfoBase;
using rst::NotNull;

namespace {
template <class T, class P = ErrorInfoBase>
struct E : ErrorInfo<T, P> {
  const std::string& AsString() const override { return s_; }
  std::string s_;
};
struct A : E<A> { static char id_; };
struct B : ErrorInfo<B, A> { static char id_; };
struct C : ErrorInfo<C, B> { static char id_; };
struct S : ErrorInfo<S, A> { static char id_; };  // a sibling of B
struct U : E<U> { static char id_; };             // unrelated
char A::id_, B::id_, C::id_, S::id_, U::id_;

// A parent whose chain is any set of class ids whatsoever.
bool parent_answer;
int parent_asked;
const void* parent_id;
struct Any : ErrorInfoBase {
  using ErrorInfoBase::IsA;
  bool IsA(const NotNull<const void*> id) const override {
    parent_asked++;
    parent_id = id.get();
    return parent_answer;
  }
  const std::string& AsString() const override { return s_; }
  std::string s_;
};
struct D : ErrorInfo<D, Any> { static char id_; };
char D::id_;

template <class Dyn, class T>
void Agree(Dyn& d, const bool is) {
  ErrorInfoBase* const base = &d;
  const ErrorInfoBase* const cbase = &d;
  verif_check(base->IsA<T>() == is, "IsA<T>() iff T is the class or an ancestor");
  verif_check(base->IsA(T::GetClassID()) == is, "IsA(id) agrees");
  const auto p = dyn_cast<T>(base);
  const auto q = dyn_cast<T>(NotNull<ErrorInfoBase*>(base));
  const auto cp = dyn_cast<T>(cbase);
  const auto cq = dyn_cast<T>(NotNull<const ErrorInfoBase*>(cbase));
  verif_check((p != nullptr) == is && (q != nullptr) == is && (cp != nullptr) == is && (cq != nullptr) == is,
              "dyn_cast non-null iff so");
  if (is) {
    verif_check(static_cast<ErrorInfoBase*>(p.get()) == base && static_cast<ErrorInfoBase*>(q.get()) == base &&
                    static_cast<const ErrorInfoBase*>(cp.get()) == base &&
                    static_cast<const ErrorInfoBase*>(cq.get()) == base,
                "dyn_cast yields the same object");
  }
}
template <class Dyn>
void Chain(Dyn& d, bool isA, bool isB, bool isC, bool isS, bool isU) {
  Agree<Dyn, A>(d, isA);
  Agree<Dyn, B>(d, isB);
  Agree<Dyn, C>(d, isC);
  Agree<Dyn, S>(d, isS);
  Agree<Dyn, U>(d, isU);
  Agree<Dyn, ErrorInfoBase>(d, true);
  verif_check(static_cast<ErrorInfoBase&>(d).GetDynamicClassID() == Dyn::GetClassID(), "dynamic class id");
}
}  // namespace

// For any parent class: a class is itself or whatever its parent is.
HARNESS(Step) {
  D d;
  parent_answer = verif::any<bool>("parent says");
  parent_asked = 0;
  const ErrorInfoBase& base = d;
  verif_check(base.IsA<D>(), "a class is itself");
  verif_check(base.IsA(NotNull<const void*>(&A::id_)) == parent_answer, "otherwise what its parent is");
  verif_check(parent_asked > 0 && parent_id == &A::id_, "asked about that class");
  verif_check((dyn_cast<A>(&base) != nullptr) == parent_answer, "dyn_cast follows IsA");
}

HARNESS(Base) {
  A a;
  const ErrorInfoBase& base = a;
  const bool self = verif::any<bool>("base class id");
  static char other;
  const void* id = self ? ErrorInfoBase::GetClassID().get() : static_cast<const void*>(&other);
  verif_check(base.IsA(NotNull<const void*>(id)) == self, "the root is only ErrorInfoBase");
}

HARNESS(ChainA) { A x; Chain(x, true, false, false, false, false); }
HARNESS(ChainB) { B x; Chain(x, true, true, false, false, false); }
HARNESS(ChainC) { C x; Chain(x, true, true, true, false, false); }
HARNESS(ChainS) { S x; Chain(x, true, false, false, true, false); }
HARNESS(ChainU) { U x; Chain(x, false, false, false, false, true); }

HARNESS(Library) {
  rst::FileError fe(std::string("x"));
  Agree<rst::FileError, rst::FileError>(fe, true);
  Agree<rst::FileError, rst::FileOpenError>(fe, false);
  Agree<rst::FileError, rst::LogError>(fe, false);
  Agree<rst::FileError, ErrorInfoBase>(fe, true);
  rst::FileOpenError fo(std::string("x"));
  Agree<rst::FileOpenError, rst::FileError>(fo, true);
  Agree<rst::FileOpenError, rst::FileOpenError>(fo, true);
  Agree<rst::FileOpenError, rst::LogError>(fo, false);
  Agree<rst::FileOpenError, ErrorInfoBase>(fo, true);
  rst::LogError le(std::string("x"));
  Agree<rst::LogError, rst::FileError>(le, false);
  Agree<rst::LogError, rst::FileOpenError>(le, false);
  Agree<rst::LogError, rst::LogError>(le, true);
  verif_check(rst::FileError::GetClassID() != rst::FileOpenError::GetClassID() &&
                  rst::FileError::GetClassID() != rst::LogError::GetClassID() &&
                  rst::FileOpenError::GetClassID() != rst::LogError::GetClassID() &&
                  rst::FileError::GetClassID() != ErrorInfoBase::GetClassID() &&
                  rst::LogError::GetClassID() != ErrorInfoBase::GetClassID() &&
                  rst::FileOpenError::GetClassID() != ErrorInfoBase::GetClassID(),
              "every class has its own identity");
}

HARNESS(NullCast) {
  const bool null = verif::any<bool>("null pointer");
  A a;
  ErrorInfoBase* p = null ? nullptr : &a;
  verif_expect_abort(null, "dyn_cast of a null raw pointer");
  const auto r = dyn_cast<A>(p);
  verif_end_expect();
  verif_check(r == &a, "same object");
}
