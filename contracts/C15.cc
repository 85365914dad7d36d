// Contracts of rst::Value's lifetime: construction, moves, assignment, destruction, getters.
#include "values.h"

using rst::Value;
using values::AnyGiven;
using values::CheckHolds;
using values::Given;
using values::Make;

#ifndef VERIF_SYMBOLIC
// Every allocation is counted; all drawn inputs are allocated by malloc.
namespace { size_t live_allocs = 0; }
void* operator new(size_t n) { live_allocs++; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void* p) noexcept { if (p) { live_allocs--; free(p); } }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
extern "C" size_t verif_live_payloads() { return live_allocs; }
#endif

namespace {
Given G(unsigned n, const char* kind, const char* payload) { return AnyGiven(verif::choice(n, kind), payload); }
struct Counted {
  size_t before = verif_live_payloads();
  void End() { verif_check(verif_live_payloads() == before, "every payload is destroyed exactly once"); }
};
// A Value that held `was` and was moved from.
void MoveOut(Value& v) { Value sink(std::move(v)); (void)sink; }
Given Number(double id) { Given g; g.kind = 2; g.d = id; return g; }
}  // namespace

HARNESS(Construct) {
  const Given g = G(6, "kind", "payload");
  Counted c;
  {
    const Value v = Make(g);
    CheckHolds(v, g);
    verif_check(v.IsNull() == (g.kind == 0) && v.IsBool() == (g.kind == 1) && v.IsNumber() == (g.kind == 2) && v.IsString() == (g.kind == 3) &&
                    v.IsArray() == (g.kind == 4) && v.IsObject() == (g.kind == 5), "exactly one type predicate holds");
  }
  c.End();
}

HARNESS(ConstructDefault) {
  const unsigned k = verif::choice(6, "kind");
  Counted c;
  {
    const Value v(static_cast<Value::Type>(k));
    verif_check(static_cast<unsigned>(v.type()) == k, "the default value has the type asked for");
    if (k == 1) verif_check(!v.GetBool(), "the default bool is false");
    if (k == 2) verif_check(v.GetDouble() == 0.0, "the default number is zero");
    if (k == 3) verif_check(v.GetString().empty(), "the default string is empty");
    if (k == 4) verif_check(v.GetArray().empty(), "the default array is empty");
    if (k == 5) verif_check(v.GetObject().empty(), "the default object is empty");
  }
  c.End();
}

HARNESS(ConstructText) {
  const char* p = nullptr;
  const size_t n = verif_any_cstr(&p, "text");
  Counted c;
  {
    const Value v(p);
    verif_check(v.IsString() && v.GetString().size() == n, "a C string gives a string of its length");
    const size_t i = verif::any<size_t>("i");
    verif_assume(i < n);
    verif_check(v.GetString()[i] == p[i], "a C string gives its text");
  }
  c.End();
}

HARNESS(GetWrongType) {
  const Given g = G(6, "kind", "payload");
  const unsigned want = verif::choice(5, "getter");  // of bool, number, string, array, object
  const bool constant = verif::any<bool>("const");
  Value v = Make(g);
  const Value& cv = v;
  verif_expect_abort(g.kind != want + 1, "the getter is of another type");
  switch (want) {
    case 0: (void)cv.GetBool(); break;
    case 1: (void)cv.GetDouble(); break;
    case 2: if (constant) (void)cv.GetString(); else (void)v.GetString(); break;
    case 3: if (constant) (void)cv.GetArray(); else (void)v.GetArray(); break;
    case 4: if (constant) (void)cv.GetObject(); else (void)v.GetObject(); break;
  }
  verif_end_expect();
}

HARNESS(GetIntOfOther) {
  const Given g = G(6, "kind", "payload");
  verif_assume(g.kind != 2);  // numbers: C16
  const bool wide = verif::any<bool>("int64");
  const Value v = Make(g);
  verif_expect_abort(true, "an integer getter of something else than a number");
  if (wide) (void)v.GetInt64(); else (void)v.GetInt();
  verif_end_expect();
}

HARNESS(WriteThrough) {
  const Given g = AnyGiven(3, "payload"), h = AnyGiven(3, "new payload");
  const double id = values::Finite("number");
  Counted c;
  {
    Value v = Make(g);
    v.GetString() = std::string(h.s);
    CheckHolds(v, h);
    Value a((Value::Array()));
    a.GetArray().emplace_back(Value(id));
    verif_check(a.GetArray().size() == 1 && a.GetArray()[0].GetDouble() == id, "a payload changed through its getter is changed");
    Value o((Value::Object()));
    o.GetObject().emplace(std::string("k"), Value(id));
    verif_check(o.GetObject().size() == 1, "an object changed through its getter is changed");
  }
  c.End();
}

HARNESS(MoveConstruct) {
  const Given g = G(6, "kind", "payload");
  const bool again = verif::any<bool>("again");
  Counted c;
  {
    Value v = Make(g);
    Value w(std::move(v));
    CheckHolds(w, g);
    if (again) {
      const Value x(std::move(w));
      CheckHolds(x, g);
    }
  }
  c.End();
}

HARNESS(MoveAssign) {
  const Given g = G(6, "kind", "payload"), h = G(6, "new kind", "new payload");
  const bool from = verif::any<bool>("target was moved from");
  Counted c;
  {
    Value v = Make(g), w = Make(h);
    if (from) MoveOut(v);
    const Value& r = (v = std::move(w));
    verif_check(&r == &v, "assignment returns the target");
    CheckHolds(v, h);
  }
  c.End();
}

// The source of a move may be assigned again.
HARNESS(AssignSource) {
  const Given g = G(6, "kind", "payload"), h = G(6, "new kind", "new payload");
  Counted c;
  {
    Value v = Make(g);
    Value w = Make(h);
    w = std::move(v);
    v = Make(h);
    CheckHolds(v, h);
    CheckHolds(w, g);
  }
  c.End();
}

HARNESS(SelfMove) {
  const Given g = G(6, "kind", "payload");
  Counted c;
  {
    Value v = Make(g);
    Value& same = v;
    v = std::move(same);
    CheckHolds(v, g);
  }
  c.End();
}

// v = one of v's own elements.
HARNESS(AssignElement) {
  const Given g = G(6, "element kind", "element");
  const double id = values::Finite("id");
  Counted c;
  {
    Value v(values::MakeArray(id));
    v.GetArray().emplace_back(Make(g));
    v = std::move(v.GetArray()[1]);
    CheckHolds(v, g);
  }
  c.End();
}
HARNESS(AssignEntry) {
  const Given g = G(6, "entry kind", "entry");
  const double id = values::Finite("id");
  Counted c;
  {
    Value v(values::MakeObject(id));
    v.GetObject().emplace(std::string("entry"), Make(g));
    v = std::move(v.GetObject().find(std::string_view("entry"))->second);
    CheckHolds(v, g);
  }
  c.End();
}
// v = an element of an element of v.
HARNESS(AssignDeep) {
  const Given g = G(6, "element kind", "element");
  const double id = values::Finite("id");
  const bool object = verif::any<bool>("inside an object");
  Counted c;
  {
    Value inner(values::MakeArray(id));
    inner.GetArray().emplace_back(Make(g));
    Value v((Value::Array()));
    if (object) {
      Value mid((Value::Object()));
      mid.GetObject().emplace(std::string("k"), std::move(inner));
      v.GetArray().emplace_back(std::move(mid));
      v = std::move(v.GetArray()[0].GetObject().find(std::string_view("k"))->second.GetArray()[1]);
    } else {
      v.GetArray().emplace_back(std::move(inner));
      v = std::move(v.GetArray()[0].GetArray()[1]);
    }
    CheckHolds(v, g);
  }
  c.End();
}
// An element of v = another element of v.
HARNESS(AssignSibling) {
  const Given g = G(6, "kind", "payload"), h = G(6, "new kind", "new payload");
  Counted c;
  {
    Value v((Value::Array()));
    v.GetArray().emplace_back(Make(g));
    v.GetArray().emplace_back(Make(h));
    v.GetArray()[0] = std::move(v.GetArray()[1]);
    CheckHolds(v.GetArray()[0], h);
  }
  c.End();
}
