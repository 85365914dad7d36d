// Contracts of rst::Status.  A Status's state is (error or none, was checked);
// every operation is proved from every such state.
#include <utility>

#include "rst/status/status.h"
#include "verif.h"

using rst::MakeStatus;
using rst::Status;

namespace {
int live = 0, destroyed = 0;
class Err : public rst::ErrorInfo<Err> {
 public:
  Err(int v, Err** self) : v_(v) { live++; *self = this; }
  ~Err() override { live--; destroyed++; }
  const std::string& AsString() const override { return s_; }
  int v_;
  static char id_;
 private:
  std::string s_;
};
char Err::id_ = 0;

void Reset() { live = destroyed = 0; }
Status Any(Err** e, const char* name) {
  *e = nullptr;
  if (verif::any<bool>(name)) return MakeStatus<Err>(7, e);
  return Status::OK();
}
// 0: nothing, 1: err(), 2: Ignore()
bool Ask(Status& s, const char* name) {
  const unsigned how = verif::choice(3, name);
  if (how == 1) (void)s.err();
  if (how == 2) s.Ignore();
  return how != 0;
}
}  // namespace

HARNESS(Create) {
  Reset();
  Err* e;
  Status s = Any(&e, "error");
  verif_check(s.err() == (e != nullptr), "err() iff made with an error");
  verif_check(s.err() == (e != nullptr), "err() is stable");
  if (e != nullptr) {
    verif_check(s.GetError().get() == e && e->v_ == 7 && live == 1, "GetError yields the error object");
    verif_check(s.GetError()->IsA<Err>() && s.GetError()->GetDynamicClassID() == Err::GetClassID(), "of its class");
  }
}

HARNESS(Destroy) {
  Reset();
  Err* e;
  {
    Status s = Any(&e, "error");
    const bool asked = Ask(s, "asked");
    verif_expect_abort(!asked, "destruction aborts iff never asked");
  }
  verif_end_expect();
  verif_check(live == 0 && destroyed == (e != nullptr), "error destroyed exactly once");
}

HARNESS(GetErrorUnchecked) {
  Reset();
  Err* e;
  Status s = Any(&e, "error");
  const bool asked = Ask(s, "asked");
  verif_expect_abort(!asked || e == nullptr, "GetError aborts iff never asked or not an error");
  verif_check(s.GetError().get() == e, "the error");
  verif_end_expect();
}

HARNESS(MoveConstruct) {
  Reset();
  Err* e;
  {
    Status s = Any(&e, "error");
    (void)Ask(s, "source asked");
    Status t(std::move(s));
    const bool asked = Ask(t, "asked");
    verif_expect_abort(!asked, "the new Status has to be asked again");
    if (e != nullptr) verif_check(t.GetError().get() == e, "the same error object");
    if (e == nullptr && !asked) t = Status::OK();
    verif_end_expect();
    verif_check(t.err() == (e != nullptr), "same kind");
    verif_check(live == (e != nullptr), "not copied");
    Status u(std::move(t));
    u.Ignore();
  }  // the moved-from ones are destroyed silently
  verif_check(live == 0 && destroyed == (e != nullptr), "destroyed exactly once");
}

HARNESS(MoveAssign) {
  Reset();
  Err *e, *f;
  {
    Status s = Any(&e, "error");
    Status t = Any(&f, "other error");
    const bool asked = Ask(s, "asked");
    (void)Ask(t, "other asked");
    verif_expect_abort(!asked, "overwriting aborts iff never asked");
    s = std::move(t);
    verif_end_expect();
    verif_check(live == (f != nullptr) && destroyed == (e != nullptr), "the old error is destroyed, the new one kept");
    const bool again = Ask(s, "asked again");
    verif_expect_abort(!again, "has to be asked again after assignment");
    if (f != nullptr) verif_check(s.GetError().get() == f, "the same error object");
    if (f == nullptr && !again) s = Status::OK();
    verif_end_expect();
    verif_check(s.err() == (f != nullptr), "same kind");
  }
  verif_check(live == 0 && destroyed == (e != nullptr) + (f != nullptr), "each destroyed exactly once");
}

HARNESS(DestroyAfterAssign) {
  Reset();
  Err *e, *f;
  {
    Status s = Any(&e, "error");
    s.Ignore();
    {
      Status t = Any(&f, "other error");
      s = std::move(t);
    }
    const bool again = Ask(s, "asked again");
    verif_expect_abort(!again, "destruction aborts iff not asked since the assignment");
  }
  verif_end_expect();
  verif_check(live == 0, "destroyed");
}

HARNESS(MovedFromReuse) {
  Reset();
  Err *e, *f;
  Status s = Any(&e, "error");
  Status t(std::move(s));
  t.Ignore();
  s = Any(&f, "new content");  // a moved-from Status may be overwritten
  verif_check(s.err() == (f != nullptr), "takes the new content");
  if (f != nullptr) verif_check(s.GetError().get() == f, "the new error");
}
