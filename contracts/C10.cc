// Contracts of rst::StatusOr<T> for a class type with observable lifetime and a
// trivially copyable type.  State: (value or error, was checked).
#include <utility>

#include "rst/status/status_or.h"
#include "verif.h"

using rst::MakeStatus;
using rst::Status;
using rst::StatusOr;

namespace {
int elive = 0, edead = 0;
class Err : public rst::ErrorInfo<Err> {
 public:
  explicit Err(Err** self) { elive++; *self = this; }
  ~Err() override { elive--; edead++; }
  const std::string& AsString() const override { return s_; }
  static char id_;
 private:
  std::string s_;
};
char Err::id_ = 0;

// A value type that knows whether it is alive; only moves.
int vlive = 0;
bool wrong = false;
struct Val {
  explicit Val(int x) : x(x), self(this) { vlive++; }
  Val(Val&& o) noexcept : x(o.x), self(this) { if (o.self != &o) wrong = true; o.x = -1; vlive++; }
  Val& operator=(Val&& o) noexcept {
    if (self != this || o.self != &o) wrong = true;
    if (this != &o) { x = o.x; o.x = -1; }
    return *this;
  }
  ~Val() { if (self != this) wrong = true; self = nullptr; vlive--; }
  int x;
  Val* self;
};

void Reset() { elive = edead = vlive = 0; wrong = false; }
struct Content { bool error; int x; Err* e; };

StatusOr<Val> Any(Content* c, const char* kind, const char* val) {
  c->error = verif::any<bool>(kind);
  c->e = nullptr;
  c->x = 0;
  if (c->error) return MakeStatus<Err>(&c->e);
  c->x = verif::any<int>(val);
  return Val(c->x);
}
StatusOr<int> AnyInt(Content* c, const char* kind, const char* val) {
  c->error = verif::any<bool>(kind);
  c->e = nullptr;
  c->x = 0;
  if (c->error) return MakeStatus<Err>(&c->e);
  c->x = verif::any<int>(val);
  return c->x;
}
template <class S>
bool Ask(S& s, const char* name) {
  const unsigned how = verif::choice(3, name);
  if (how == 1) (void)s.err();
  if (how == 2) s.Ignore();
  return how != 0;
}
int Get(int& v) { return v; }
int Get(Val& v) { if (v.self != &v) wrong = true; return v.x; }
template <class S>
void Holds(S& s, const Content& c) {
  verif_check(s.err() == c.error, "holds the kind it was given");
  if (c.error) verif_check(s.status().GetError().get() == c.e, "holds the error it was given");
  else verif_check(Get(*s) == c.x, "holds the value it was given");
  verif_check(!wrong, "every value is used while alive only");
}
}  // namespace

HARNESS(Construct) {
  Reset();
  Content c;
  {
    StatusOr<Val> s = Any(&c, "error", "x");
    Holds(s, c);
    verif_check(vlive == !c.error && elive == c.error, "exactly one of value and error");
    if (!c.error) verif_check(s->x == c.x && &*s == s.operator->().get(), "operator->");
  }
  verif_check(vlive == 0 && elive == 0 && edead == c.error && !wrong, "destroyed exactly once");
}

HARNESS(ConstructInt) {
  Reset();
  Content c;
  { StatusOr<int> s = AnyInt(&c, "error", "x"); Holds(s, c); }
  verif_check(elive == 0 && edead == c.error, "error destroyed exactly once");
}

HARNESS(Destroy) {
  Reset();
  Content c;
  {
    StatusOr<Val> s = Any(&c, "error", "x");
    const bool asked = Ask(s, "asked");
    verif_expect_abort(!asked, "destruction aborts iff never asked");
  }
  verif_end_expect();
  verif_check(vlive == 0 && elive == 0 && !wrong, "destroyed");
}

HARNESS(Use) {
  Reset();
  Content c;
  StatusOr<Val> s = Any(&c, "error", "x");
  const bool asked = Ask(s, "asked");
  const unsigned op = verif::choice(4, "op");
  if (op < 2) {
    verif_expect_abort(!asked || c.error, "dereference aborts iff never asked or an error");
    if (op == 0) verif_check((*s).x == c.x, "operator*");
    if (op == 1) verif_check(s->x == c.x, "operator-> value");
    verif_end_expect();
  } else {
    verif_expect_abort(!asked || !c.error, "taking the status aborts iff never asked or a value");
    if (op == 2) verif_check(s.status().GetError().get() == c.e, "status()");
    if (op == 3) {
      Status t = std::move(s).TakeStatus();
      verif_check(t.err() && t.GetError().get() == c.e && elive == 1, "TakeStatus()");
    }
    verif_end_expect();
  }
  if (!asked) s.Ignore();
}

HARNESS(MoveConstruct) {
  Reset();
  Content c;
  {
    StatusOr<Val> s = Any(&c, "error", "x");
    (void)Ask(s, "source asked");
    StatusOr<Val> t(std::move(s));
    const bool asked = Ask(t, "asked");
    verif_expect_abort(!asked, "the new StatusOr has to be asked again");
    if (!c.error) (void)*t; else (void)t.status();
    verif_end_expect();
    Holds(t, c);
  }
  verif_check(vlive == 0 && elive == 0 && edead == c.error && !wrong, "destroyed exactly once");
}

HARNESS(MoveAssign) {
  Reset();
  Content c, d;
  {
    StatusOr<Val> s = Any(&c, "error", "x");
    StatusOr<Val> t = Any(&d, "other error", "y");
    const bool asked = Ask(s, "asked");
    (void)Ask(t, "other asked");
    verif_expect_abort(!asked, "overwriting aborts iff never asked");
    s = std::move(t);
    verif_end_expect();
    const bool again = Ask(s, "asked again");
    verif_expect_abort(!again, "has to be asked again");
    if (!d.error) (void)*s; else (void)s.status();
    verif_end_expect();
    Holds(s, d);
    verif_check(elive == d.error && edead == c.error, "the old error is destroyed, the new one kept");
  }
  verif_check(vlive == 0 && elive == 0 && edead == c.error + d.error && !wrong, "each destroyed exactly once");
}

HARNESS(AssignValue) {
  Reset();
  Content c, d;
  d.error = false;
  {
    StatusOr<Val> s = Any(&c, "error", "x");
    const bool asked = Ask(s, "asked");
    d.x = verif::any<int>("y");
    verif_expect_abort(!asked, "overwriting aborts iff never asked");
    s = Val(d.x);
    verif_end_expect();
    const bool again = Ask(s, "asked again");
    verif_expect_abort(!again, "has to be asked again");
    (void)*s;
    verif_end_expect();
    Holds(s, d);
    verif_check(vlive == 1 && elive == 0 && edead == c.error, "the old content is destroyed");
  }
  verif_check(vlive == 0 && elive == 0 && edead == c.error && !wrong, "each destroyed exactly once");
}

HARNESS(AssignInt) {
  Reset();
  Content c, d;
  d.error = false;
  {
    StatusOr<int> s = AnyInt(&c, "error", "x");
    const bool asked = Ask(s, "asked");
    d.x = verif::any<int>("y");
    verif_expect_abort(!asked, "overwriting aborts iff never asked");
    if (verif::any<bool>("by copy")) { const int& r = d.x; s = r; } else s = int(d.x);
    verif_end_expect();
    const bool again = Ask(s, "asked again");
    verif_expect_abort(!again, "has to be asked again");
    (void)*s;
    verif_end_expect();
    Holds(s, d);
  }
  verif_check(elive == 0 && edead == c.error, "error destroyed exactly once");
}

HARNESS(AssignStatus) {
  Reset();
  Content c, d;
  d.error = true;
  {
    StatusOr<Val> s = Any(&c, "error", "x");
    const bool asked = Ask(s, "asked");
    const bool ok = verif::any<bool>("ok status");
    verif_expect_abort(!asked || ok, "assigning a status aborts iff never asked or the status is no error");
    s = ok ? Status::OK() : MakeStatus<Err>(&d.e);
    verif_end_expect();
    const bool again = Ask(s, "asked again");
    verif_expect_abort(!again, "has to be asked again");
    (void)s.status();
    verif_end_expect();
    Holds(s, d);
    verif_check(vlive == 0 && elive == 1 && edead == c.error, "the old content is destroyed");
  }
  verif_check(vlive == 0 && elive == 0 && edead == c.error + 1 && !wrong, "each destroyed exactly once");
}

HARNESS(ConstructFromOk) {
  Reset();
  Err* e;
  const bool ok = verif::any<bool>("ok status");
  verif_expect_abort(ok, "construction from a status aborts iff it is no error");
  StatusOr<Val> s = ok ? Status::OK() : MakeStatus<Err>(&e);
  verif_end_expect();
  verif_check(s.err() && s.status().GetError().get() == e, "the error");
}
