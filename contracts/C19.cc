// Contracts of the key operations of rst::Value on objects of any content.
#include "values.h"

using rst::Value;
using values::AnyGiven;
using values::CheckHolds;
using values::Given;
using values::Make;

namespace {
std::string_view AnyKey(const char* name) {
  verif::hint_any({"", "a", "b", "ab", "a.b", "c", std::string_view("a\0b", 3)});
  return verif::any_bytes(name);
}
// Any object at all, said apart: whether it has this key and what is there.
struct Entry {
  std::string_view key;
  bool has = false;
  Given g;
};
Entry AnyEntry(const char* key, const char* has, const char* kind, const char* payload) {
  Entry e;
  e.key = AnyKey(key);
  e.has = verif::any<bool>(has);
  if (e.has) e.g = AnyGiven(verif::choice(6, kind), payload);
  return e;
}
void Put(Value::Object& o, const Entry& e) {
  o.erase(std::string(e.key));
  if (e.has) o.emplace(std::string(e.key), Make(e.g));
}
void CheckEntry(const Value& v, const Entry& e, const char*) {
  const auto found = v.FindKey(e.key);
  verif_check((found != nullptr) == e.has, "a key is found exactly when the object has it");
  if (e.has && found != nullptr) CheckHolds(*found, e.g);
}
}  // namespace

HARNESS(Find) {
  const Entry e = AnyEntry("key", "has key", "kind", "payload");
  Value::Object o = values::AnyObject("object");
  Put(o, e);
  Value v(std::move(o));
  CheckEntry(v, e, "");
  const auto found = v.FindKey(e.key);
  verif_check(found.get() == std::as_const(v).FindKey(e.key).get(), "both overloads find the same Value");
}

// What is at another key, whatever it is.
struct Other {
  std::string_view key;
  bool has;
  uint64_t content = 0;
  Other(const Value& v, std::string_view k) : key(k) {
    const auto p = v.FindKey(k);
    has = p != nullptr;
    if (p != nullptr) content = verif_remember(p.get());
  }
  void CheckSame(const Value& v) const {
    const auto p = v.FindKey(key);
    verif_check((p != nullptr) == has && (p == nullptr || verif_remembered(p.get(), content)), "every other key keeps its value");
  }
};

HARNESS(Set) {
  const Entry e = AnyEntry("key", "has key", "old kind", "old payload");
  const std::string_view other = AnyKey("other key");
  verif_assume(e.key != other);
  const Given h = AnyGiven(verif::choice(6, "kind"), "payload");
  Value::Object o = values::AnyObject("object");
  Put(o, e);
  Value v(std::move(o));
  const Other rest(v, other);
  const size_t n = v.GetObject().size();
  const auto set = v.SetKey(std::string(e.key), Make(h));
  verif_check(v.GetObject().size() == n + (e.has ? 0 : 1), "SetKey adds one entry for a new key only");
  const auto found = v.FindKey(e.key);
  verif_check(found != nullptr && found.get() == set.get(), "the key set is found, where SetKey says");
  CheckHolds(*set, h);
  rest.CheckSame(v);
}

HARNESS(SetTwice) {
  const std::string_view k = AnyKey("key"), l = AnyKey("second key");
  const Given g = AnyGiven(verif::choice(6, "kind"), "payload"), h = AnyGiven(2, "second payload");
  Value v(values::AnyObject("object"));
  (void)v.SetKey(std::string(k), Make(g));
  (void)v.SetKey(std::string(l), Make(h));
  const auto a = v.FindKey(k), b = v.FindKey(l);
  verif_check(a != nullptr && b != nullptr, "keys set are found");
  CheckHolds(*b, h);
  if (k != l) CheckHolds(*a, g);
}

HARNESS(Remove) {
  const Entry e = AnyEntry("key", "has key", "kind", "payload");
  const std::string_view other = AnyKey("other key");
  verif_assume(e.key != other);
  Value::Object o = values::AnyObject("object");
  Put(o, e);
  Value v(std::move(o));
  const Other rest(v, other);
  const size_t n = v.GetObject().size();
  const bool removed = v.RemoveKey(e.key);
  verif_check(v.GetObject().size() == n - (e.has ? 1 : 0), "RemoveKey removes one entry only");
  verif_check(removed == e.has, "RemoveKey tells whether the key was there");
  verif_check(v.FindKey(e.key) == nullptr, "a removed key is not found");
  rest.CheckSame(v);
  verif_check(!v.RemoveKey(e.key), "a removed key cannot be removed again");
}

HARNESS(TypedFind) {
  const Entry e = AnyEntry("key", "has key", "kind", "payload");
  const unsigned type = verif::choice(6, "type");
  Value::Object o = values::AnyObject("object");
  Put(o, e);
  Value v(std::move(o));
  const Value& c = v;
  const Value* const p = c.FindKey(e.key).get();
  verif_check((p != nullptr) == e.has, "a key is found exactly when the object has it");
  const auto is = [&](unsigned k) { return e.has && e.g.kind == k; };
  verif_check(c.FindKeyOfType(e.key, static_cast<Value::Type>(type)).get() == (is(type) ? p : nullptr), "FindKeyOfType finds a Value of that type only");
  verif_check(v.FindKeyOfType(e.key, static_cast<Value::Type>(type)).get() == (is(type) ? p : nullptr), "FindKeyOfType (non-const) finds a Value of that type only");
  const auto b = c.FindBoolKey(e.key);
  verif_check(b.has_value() == is(1) && (!b || *b == e.g.b), "FindBoolKey finds a bool only");
  const auto d = c.FindDoubleKey(e.key);
  verif_check(d.has_value() == is(2) && (!d || *d == e.g.d), "FindDoubleKey finds a number only");
  const auto s = c.FindStringKey(e.key);
  verif_check((s != nullptr) == is(3) && (s == nullptr || s.get() == &p->GetString()), "FindStringKey finds a string only");
  verif_check(c.FindArrayKey(e.key).get() == (is(4) ? p : nullptr), "FindArrayKey finds an array only");
  verif_check(c.FindObjectKey(e.key).get() == (is(5) ? p : nullptr), "FindObjectKey finds an object only");
}

HARNESS(IntegerFind) {
  Entry e;
  e.key = AnyKey("key");
  e.has = true;
  e.g = AnyGiven(2, "number");
#ifndef VERIF_SYMBOLIC
  static const double edges[] = {0, -1, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 9007199254740991.0, 9007199254740992.0, -9007199254740991.0, -9007199254740992.0, 0.5, 1e300};
  if (verif_rand() % 2) e.g.d = edges[verif_rand() % 12];
#endif
  Value::Object o = values::AnyObject("object");
  Put(o, e);
  const Value v(std::move(o));
  const Value* const p = v.FindKey(e.key).get();
  verif_assume(p != nullptr);
  const auto w = v.FindInt64Key(e.key);
  verif_check(w.has_value() == p->IsInt64() && (!w || *w == p->GetInt64()), "FindInt64Key finds an exact 64-bit integer only");
  const auto i = v.FindIntKey(e.key);
  verif_check(i.has_value() == p->IsInt() && (!i || *i == p->GetInt()), "FindIntKey finds an exact int only");
}
HARNESS(IntegerFindOther) {
  const Entry e = AnyEntry("key", "has key", "kind", "payload");
  verif_assume(!e.has || e.g.kind != 2);
  Value::Object o = values::AnyObject("object");
  Put(o, e);
  const Value v(std::move(o));
  verif_check(!v.FindInt64Key(e.key).has_value(), "FindInt64Key finds a number only");
  verif_check(!v.FindIntKey(e.key).has_value(), "FindIntKey finds a number only");
}

HARNESS(NotAnObject) {
  const Given g = AnyGiven(verif::choice(6, "kind"), "payload");
  const std::string_view k = AnyKey("key");
  const unsigned op = verif::choice(12, "operation");
  Value v = Make(g);
  const Value& c = v;
  verif_expect_abort(g.kind != 5, "a key operation on something else than an object");
  switch (op) {
    case 0: (void)c.FindKey(k); break;
    case 1: (void)v.FindKey(k); break;
    case 2: (void)c.FindKeyOfType(k, Value::Type::kNull); break;
    case 3: (void)c.FindBoolKey(k); break;
    case 4: (void)c.FindIntKey(k); break;
    case 5: (void)c.FindInt64Key(k); break;
    case 6: (void)c.FindDoubleKey(k); break;
    case 7: (void)c.FindStringKey(k); break;
    case 8: (void)c.FindArrayKey(k); break;
    case 9: (void)c.FindObjectKey(k); break;
    case 10: (void)v.SetKey(std::string(k), Value(true)); break;
    case 11: (void)v.RemoveKey(k); break;
  }
  verif_end_expect();
}
