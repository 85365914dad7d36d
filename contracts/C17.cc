// Contracts of rst::Value::Clone.
#include "values.h"

using rst::Value;
using values::AnyGiven;
using values::CheckHolds;
using values::Given;
using values::Make;

namespace {
// Any index below n; n is not zero.
size_t Index(size_t given, size_t n) {
  if (verif_native()) return given % n;
  verif_assume(given < n);
  return given;
}
}  // namespace

// A clone of any array has the same elements at every index, and its own ones.
HARNESS(CloneArray) {
  const auto given = verif::any<size_t>("index");
  const Value::Array a = values::AnyArray("array");
  const size_t n = a.size();
  verif_assume(n != 0);
  const size_t i = Index(given, n);
  const uint64_t content = verif_remember(&a[i]);
  Value::Array c = Value::Clone(a);
  verif_check(c.size() == n && a.size() == n, "a cloned array has the size of its source");
  verif_check(verif_remembered(&c[i], content), "a cloned array has the elements of its source");
  verif_check(verif_remembered(&a[i], content), "cloning leaves the source as it is");
  verif_check(&c[i] != &a[i], "a cloned array has elements of its own");
  { const Value taken(std::move(c[i])); }
  verif_check(verif_remembered(&a[i], content), "changing the clone leaves the source as it is");
}
HARNESS(CloneEmpty) {
  const Value::Array a;
  const Value::Object o;
  verif_check(Value::Clone(a).empty() && Value::Clone(o).empty(), "an empty array or object is cloned to an empty one");
}

// A clone of any object has the same keys and Values in every entry, and its own ones.
HARNESS(CloneObject) {
  const auto given = verif::any<size_t>("index");
  const Value::Object o = values::AnyEntries("object");
  const size_t n = o.size();
  verif_assume(n != 0);
  const size_t i = Index(given, n);
  const auto* const source = verif_nth(&o, i);
  const uint64_t content = verif_remember(&source->second);
  Value::Object c = Value::Clone(o);
  verif_check(c.size() == n && o.size() == n, "a cloned object has the size of its source");
  const auto* const copy = verif_nth(&c, i);
  verif_check(copy != source && &copy->second != &source->second, "a cloned object has entries of its own");
  verif_check(copy->first == source->first, "a cloned object has the keys of its source");
  verif_check(verif_remembered(&copy->second, content), "a cloned object has the Values of its source");
  verif_check(verif_remembered(&source->second, content), "cloning leaves the source as it is");
  { const Value taken(std::move(const_cast<Value&>(copy->second))); }
  verif_check(verif_remembered(&source->second, content), "changing the clone leaves the source as it is");
}

// Value::Clone of every type; the copies are unaffected by each other.
HARNESS(CloneScalar) {
  const Given g = AnyGiven(verif::choice(4, "kind"), "payload"), h = AnyGiven(verif::choice(4, "new kind"), "new payload");
  const bool clone = verif::any<bool>("change the clone");
  Value v = Make(g);
  Value c = v.Clone();
  CheckHolds(c, g);
  CheckHolds(v, g);
  Value& changed = clone ? c : v;
  Value& other = clone ? v : c;
  if (g.kind == 3) {
    changed.GetString() += "x";
    CheckHolds(other, g);
  }
  changed = Make(h);
  CheckHolds(other, g);
  CheckHolds(changed, h);
}
HARNESS(CloneArrayValue) {
  const auto given = verif::any<size_t>("index");
  const bool clone = verif::any<bool>("change the clone");
  Value v(values::AnyArray("array"));
  const size_t n = v.GetArray().size();
  verif_assume(n != 0);
  const size_t i = Index(given, n);
  const uint64_t content = verif_remember(&v.GetArray()[i]);
  Value c = v.Clone();
  verif_check(c.IsArray() && c.GetArray().size() == n, "a cloned array Value is an array of the size of its source");
  verif_check(verif_remembered(&c.GetArray()[i], content) && verif_remembered(&v.GetArray()[i], content), "a cloned array Value has the elements of its source");
  { const Value taken(std::move((clone ? c : v).GetArray()[i])); }
  verif_check(verif_remembered(&(clone ? v : c).GetArray()[i], content), "changing one of the two leaves the other as it is");
}
HARNESS(CloneObjectValue) {
  const auto given = verif::any<size_t>("index");
  const bool clone = verif::any<bool>("change the clone");
  Value v(values::AnyEntries("object"));
  const size_t n = v.GetObject().size();
  verif_assume(n != 0);
  const size_t i = Index(given, n);
  const uint64_t content = verif_remember(&verif_nth(&v.GetObject(), i)->second);
  Value c = v.Clone();
  verif_check(c.IsObject() && c.GetObject().size() == n, "a cloned object Value is an object of the size of its source");
  const auto *const p = verif_nth(&v.GetObject(), i), *const q = verif_nth(&c.GetObject(), i);
  verif_check(p->first == q->first && verif_remembered(&q->second, content) && verif_remembered(&p->second, content), "a cloned object Value has the entries of its source");
  { const Value taken(std::move(const_cast<Value&>((clone ? q : p)->second))); }
  verif_check(verif_remembered(&(clone ? p : q)->second, content), "changing one of the two leaves the other as it is");
}
