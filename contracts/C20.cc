// Contracts of rst::Value::FindPath and SetPath: what they are for a path of one component, and how a longer path comes
// down to the rest of the path in the object of its first component (induction on the number of components).
#include <utility>

#include "values.h"

using rst::Value;
using values::AnyGiven;
using values::CheckHolds;
using values::Given;
using values::Make;

#ifdef VERIF_SYMBOLIC
extern "C" void verif_assume_unrelated(size_t n, const char* p, size_t m, const char* q);
#endif

namespace {
std::string_view AnyPath(const char* name) {
  verif::hint_any({"", "a", "b", "a.b", "a.c", "a.b.c", "a.b.d", "b.c.d", ".", "a.", ".a", "a..b", "..", "ab.c", "a.b.a.b.a.b"});
  return verif::any_bytes(name);
}
Value AnyTree(const char* name) { return Value(values::AnyObject(name)); }
size_t Dot(std::string_view p) { return p.find('.'); }
// Neither path is the other one or continues it: their components differ somewhere.
void AssumeUnrelated(std::string_view p, std::string_view q) {
  const auto i = Dot(p), j = Dot(q);
  if (p.substr(0, i) != q.substr(0, j)) return;
  verif_assume(i != std::string_view::npos && j != std::string_view::npos);
#ifdef VERIF_SYMBOLIC
  verif_assume_unrelated(p.size() - (i + 1), p.data() + i + 1, q.size() - (j + 1), q.data() + j + 1);
#else
  AssumeUnrelated(p.substr(i + 1), q.substr(j + 1));
#endif
}
}  // namespace

// One unfolding of where a path leads.
HARNESS(Find) {
  const Value v = AnyTree("tree");
  const auto path = AnyPath("path");
  const auto dot = Dot(path);
  const Value* const got = v.FindPath(path).get();
  if (dot == std::string_view::npos) {
    verif_check(got == v.FindKey(path).get(), "a path of one component leads to that key");
    return;
  }
  const Value* const child = v.FindKey(path.substr(0, dot)).get();
  if (child == nullptr || !child->IsObject())
    verif_check(got == nullptr, "a path through no object leads nowhere");
  else
    verif_check(got == child->FindPath(path.substr(dot + 1)).get(), "a path leads where its rest leads from its first component");
}

HARNESS(FindOverloads) {
  Value v = AnyTree("tree");
  const auto path = AnyPath("path");
  verif_check(v.FindPath(path).get() == std::as_const(v).FindPath(path).get(), "both overloads find the same Value");
}

HARNESS(FindInEmpty) {
  const Value v(Value::Type::kObject);
  verif_check(v.FindPath(AnyPath("path")) == nullptr, "no path leads anywhere in an empty object");
}

HARNESS(SetThenFind) {
  Value v = AnyTree("tree");
  const auto path = AnyPath("path");
  const Given g = AnyGiven(verif::choice(6, "kind"), "payload");
  const auto set = v.SetPath(path, Make(g));
  verif_check(v.IsObject(), "the tree is still an object");
  CheckHolds(*set, g);
  verif_check(v.FindPath(path).get() == set.get(), "a path set leads where SetPath says");
}

HARNESS(OthersKept) {
  Value v = AnyTree("tree");
  const auto path = AnyPath("path"), other = AnyPath("other path");
  AssumeUnrelated(path, other);
  const Value* const p = v.FindPath(other).get();
  const uint64_t content = p == nullptr ? 0 : verif_remember(p);
  (void)v.SetPath(path, Value(verif::any<bool>("value")));
  const Value* const q = v.FindPath(other).get();
  verif_check((p == nullptr) == (q == nullptr) && (q == nullptr || verif_remembered(q, content)), "a path that does not continue the one set, nor is continued by it, leads to what it led to");
}

// The number of keys: what is not on the path is not created either.
HARNESS(Sizes) {
  Value v = AnyTree("tree");
  const auto path = AnyPath("path");
  const bool has = v.FindKey(path.substr(0, Dot(path))) != nullptr;
  const size_t n = v.GetObject().size();
  (void)v.SetPath(path, Value(verif::any<bool>("value")));
  verif_check(v.GetObject().size() == n + (has ? 0 : 1), "SetPath adds one key at most to an object");
}

HARNESS(NotAnObject) {
  Value v = values::AnyValue(verif::choice(6, "kind"), "value");
  const bool object = v.IsObject(), set = verif::any<bool>("set");
  const auto path = AnyPath("path");
  verif_expect_abort(!object, "a path into something that is not an object");
  if (set) (void)v.SetPath(path, Value(true)); else (void)v.FindPath(path);
  verif_end_expect();
}

#ifndef VERIF_SYMBOLIC
namespace {
const Value* Walk(const Value& v, std::string_view path) {
  const auto dot = path.find('.');
  const auto it = v.GetObject().find(path.substr(0, dot));
  if (it == v.GetObject().end()) return nullptr;
  if (dot == std::string_view::npos) return &it->second;
  return it->second.IsObject() ? Walk(it->second, path.substr(dot + 1)) : nullptr;
}
void Store(Value::Object& o, std::string_view path, Value&& x) {
  const auto dot = path.find('.');
  if (dot == std::string_view::npos) { o.insert_or_assign(std::string(path), std::move(x)); return; }
  Value& child = o[std::string(path.substr(0, dot))];
  Value::Object inner;
  if (child.IsObject()) inner = std::move(child.GetObject());
  Store(inner, path.substr(dot + 1), std::move(x));
  child = Value(std::move(inner));
}
std::string RandomPath() {
  static const std::string parts[] = {"a", "b", "", "c", "ab", "component", std::string("a\0b", 3), std::string(40, 'k') + "1", std::string(40, 'k') + "2", std::string(300, 'k'), std::string(300, 'k') + "1"};
  const auto part = [] { return parts[verif_rand() % 4 != 0 ? verif_rand() % 5 : verif_rand() % 11]; };
  std::string s = part();
  for (auto n = verif_rand() % (verif_rand() % 16 == 0 ? 40 : 5); n > 0; n--) s += "." + part();
  return s;
}
}  // namespace
// Whole histories against another implementation.
HARNESS(Histories) {
  Value v(Value::Type::kObject);
  Value::Object model;
  for (auto n = 1 + verif_rand() % 20; n > 0; n--) {
    const auto path = RandomPath();
    if (verif_rand() % 2 == 0) {
      const Value x = values::RandomValue(2);
      const auto set = v.SetPath(path, values::Copy(x));
      Store(model, path, values::Copy(x));
      verif_check(values::Identical(*set, x), "SetPath gives the Value set");
      Value whole(std::move(model));
      verif_check(values::Identical(v, whole), "the tree after SetPath");
      model = std::move(whole.GetObject());
    }
    const Value* const got = std::as_const(v).FindPath(path).get();
    Value whole(std::move(model));
    const Value* const want = Walk(whole, path);
    verif_check((got == nullptr) == (want == nullptr) && (got == nullptr || values::Identical(*got, *want)), "FindPath after a history");
    model = std::move(whole.GetObject());
  }
}
#endif
