// Contracts of the TRY macros: each used in functions returning Status and
// StatusOr, on any result of the inner statement.
#include <memory>
#include <string>
#include <utility>

#include "rst/status/status.h"
#include "rst/status/status_macros.h"
#include "rst/status/status_or.h"
#include "verif.h"

using rst::MakeStatus;
using rst::Status;
using rst::StatusOr;

namespace {
int live, evals, after, values;
class Err : public rst::ErrorInfo<Err> {
 public:
  explicit Err(Err** self) { live++; *self = this; }
  ~Err() override { live--; }
  const std::string& AsString() const override { return s_; }
  static char id_;
 private:
  std::string s_;
};
char Err::id_ = 0;
struct Val {
  explicit Val(int v) : v(v) { values++; }
  Val(Val&& o) noexcept : v(o.v) { o.v = -1; values++; }
  Val& operator=(Val&& o) noexcept { v = o.v; if (&o != this) o.v = -1; return *this; }
  ~Val() { values--; }
  int v;
};

bool fail[3];
Err* err[3];
int val[3];
void Reset() { live = evals = after = values = 0; for (auto& e : err) e = nullptr; }
Status S(int i) {
  evals += 1 << (4 * i);
  if (fail[i]) return MakeStatus<Err>(&err[i]);
  return Status::OK();
}
StatusOr<Val> O(int i) {
  evals += 1 << (4 * i);
  if (fail[i]) return MakeStatus<Err>(&err[i]);
  return Val(val[i]);
}
void Pick() {
  Reset();
  fail[0] = verif::any<bool>("first fails");
  fail[1] = verif::any<bool>("second fails");
  val[0] = verif::any<int>("first value");
  val[1] = verif::any<int>("second value");
}
int got[2];

Status TryS() {
  RST_TRY(S(0));
  after++;
  RST_TRY(S(1));
  after++;
  return Status::OK();
}
StatusOr<Val> TryO() {
  RST_TRY(S(0));
  after++;
  RST_TRY(S(1));
  after++;
  return Val(5);
}
Status AssignS() {
  StatusOr<Val> x = Val(1);
  x.Ignore();
  RST_TRY_ASSIGN(x, O(0));
  got[0] = x->v;
  after++;
  RST_TRY_ASSIGN(x, O(1));
  got[1] = x->v;
  after++;
  return Status::OK();
}
StatusOr<Val> AssignO() {
  StatusOr<Val> x = Val(1);
  x.Ignore();
  RST_TRY_ASSIGN(x, O(0));
  got[0] = x->v;
  after++;
  RST_TRY_ASSIGN(x, O(1));
  got[1] = x->v;
  after++;
  return Val(5);
}
Status UnwrapS() {
  Val x(1);
  RST_TRY_ASSIGN_UNWRAP(x, O(0));
  got[0] = x.v;
  after++;
  RST_TRY_ASSIGN_UNWRAP(x, O(1));
  got[1] = x.v;
  after++;
  return Status::OK();
}
StatusOr<Val> UnwrapO() {
  Val x(1);
  if (fail[0] || !fail[0])
    RST_TRY_ASSIGN_UNWRAP(x, O(0));
  else
    after = 100;  // binds to the outer if
  got[0] = x.v;
  after++;
  RST_TRY_ASSIGN_UNWRAP(x, O(1));
  got[1] = x.v;
  after++;
  return Val(5);
}
Status CreateS() {
  RST_TRY_CREATE(StatusOr<Val>, x, O(0));
  got[0] = x->v;
  after++;
  RST_TRY_CREATE(auto, y, O(1));
  got[1] = y->v;
  after++;
  return Status::OK();
}
StatusOr<Val> CreateO() {
  RST_TRY_CREATE(StatusOr<Val>, x, O(0));
  got[0] = x->v;
  after++;
  RST_TRY_CREATE(auto, y, O(1));
  got[1] = y->v;
  after++;
  return Val(5);
}

void Post(bool values_read) {
  const int first = fail[0] ? 0 : fail[1] ? 1 : 2;
  verif_check(evals == (first == 0 ? 1 : 0x11), "each statement up to the first error is evaluated exactly once");
  verif_check(after == first, "execution continues exactly up to the first error");
  if (values_read && first > 0) verif_check(got[0] == val[0], "the first value is assigned");
  if (values_read && first > 1) verif_check(got[1] == val[1], "the second value is assigned");
}
void Result(Status s) {
  const bool bad = fail[0] || fail[1];
  verif_check(s.err() == bad, "returns an error iff a statement did");
  if (bad) {
    verif_check(s.GetError().get() == (fail[0] ? err[0] : err[1]), "that same error object");
    verif_check(live == 1, "not copied, not leaked");
  }
}
void Result(StatusOr<Val> s) {
  const bool bad = fail[0] || fail[1];
  verif_check(s.err() == bad, "returns an error iff a statement did");
  if (!bad) verif_check(s->v == 5 && values == 1, "the function's own value");
  else Result(std::move(s).TakeStatus());
}
template <class F>
void Run(F f, bool values_read) {
  Pick();
  Result(f());
  Post(values_read);
  verif_check(live == 0 && values == 0, "everything is destroyed exactly once");
}
}  // namespace

HARNESS(TryS) { Run(TryS, false); }
HARNESS(TryO) { Run(TryO, false); }
HARNESS(AssignS) { Run(AssignS, true); }
HARNESS(AssignO) { Run(AssignO, true); }
HARNESS(UnwrapS) { Run(UnwrapS, true); }
HARNESS(UnwrapO) { Run(UnwrapO, true); }
HARNESS(CreateS) { Run(CreateS, true); }
HARNESS(CreateO) { Run(CreateO, true); }
