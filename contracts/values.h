// Values of every type for the harnesses, symbolic or concrete.
#ifndef VERIF_VALUES_H_
#define VERIF_VALUES_H_
#include <cmath>
#include <cstdlib>
#include <new>
#include <string>
#include <utility>

#include "rst/value/value.h"
#include "verif.h"

extern "C" size_t verif_live_payloads();
// The content of a Value, and whether a Value has it.
extern "C" uint64_t verif_remember(const rst::Value* v);
extern "C" bool verif_remembered(const rst::Value* v, uint64_t content);
// *p becomes an array (object) of any size and content.
extern "C" void verif_any_array(rst::Value::Array* p, const char* name);
extern "C" void verif_any_object(rst::Value::Object* p, const char* name);
// The same, to be iterated over; and its entry at index i in key order.
extern "C" void verif_any_entries(rst::Value::Object* p, const char* name);
extern "C" const rst::Value::Object::value_type* verif_nth(const rst::Value::Object* p, size_t i);

namespace values {
using rst::Value;
using Type = Value::Type;

// What a Value is made from: the type and one payload.
struct Given {
  unsigned kind = 0;  // as Value::Type
  bool b = false;
  double d = 0;
  std::string_view s;
  double id = 0;  // number in the first element / under the key "id"
};
inline double Finite(const char* name) {
  const auto d = verif::any<double>(name);
  verif_assume(std::isfinite(d));
  return d;
}
inline Given AnyGiven(unsigned kind, const char* name) {
  Given g;
  g.kind = kind;
  switch (kind) {
    case 1: g.b = verif::any<bool>(name); break;
    case 2: g.d = Finite(name); break;
    case 3: g.s = verif::any_bytes(name); break;
    case 4: case 5: g.id = Finite(name); break;
  }
  return g;
}
inline Value::Array MakeArray(double id) {
  Value::Array a;
  a.emplace_back(Value(id));
  return a;
}
inline Value::Object MakeObject(double id) {
  Value::Object o;
  o.emplace(std::string("id"), Value(id));
  return o;
}
inline Value Make(const Given& g) {
  switch (g.kind) {
    case 1: return Value(g.b);
    case 2: return Value(g.d);
    case 3: return Value(std::string(g.s));
    case 4: return Value(MakeArray(g.id));
    case 5: return Value(MakeObject(g.id));
  }
  return Value();
}
inline bool Same(double a, double b) { return a == b; }
// v has the type and payload of g; extra: how many more elements it may have.
inline void CheckHolds(const Value& v, const Given& g, size_t extra = 0) {
  verif_check(static_cast<unsigned>(v.type()) == g.kind, "the Value has the type it was given");
  switch (g.kind) {
    case 0: verif_check(v.IsNull(), "null is null"); break;
    case 1: verif_check(v.IsBool() && v.GetBool() == g.b, "the bool is the one given"); break;
    case 2: verif_check(v.IsNumber() && Same(v.GetDouble(), g.d), "the number is the one given"); break;
    case 3: verif_check(v.IsString() && std::string_view(v.GetString()) == g.s, "the string is the one given"); break;
    case 4:
      verif_check(v.IsArray() && v.GetArray().size() == 1 + extra, "the array is the one given");
      verif_check(v.GetArray()[0].IsNumber() && Same(v.GetArray()[0].GetDouble(), g.id), "the array's element is the one given");
      break;
    case 5: {
      verif_check(v.IsObject() && v.GetObject().size() == 1 + extra, "the object is the one given");
      const auto it = v.GetObject().find(std::string_view("id"));
      verif_check(it != v.GetObject().cend() && it->second.IsNumber() && Same(it->second.GetDouble(), g.id), "the object's entry is the one given");
      break;
    }
  }
}
inline Value::Array AnyArray(const char* name) {
  Value::Array a;
  verif_any_array(&a, name);
  return a;
}
inline Value::Object AnyObject(const char* name) {
  Value::Object o;
  verif_any_object(&o, name);
  return o;
}
inline Value::Object AnyEntries(const char* name) {
  Value::Object o;
  verif_any_entries(&o, name);
  return o;
}
// A Value of the given type with any payload at all.
inline Value AnyValue(unsigned kind, const char* name) {
  switch (kind) {
    case 1: return Value(verif::any<bool>(name));
    case 2: return Value(Finite(name));
    case 3: return Value(std::string(verif::any_bytes(name)));
    case 4: return Value(AnyArray(name));
    case 5: return Value(AnyObject(name));
  }
  return Value();
}

#ifndef VERIF_SYMBOLIC
// Small random trees: equal and nearly equal parts are frequent.
inline Value RandomValue(int depth) {
  static const double numbers[] = {0.0, 1.0, 1.0 + 1e-16, 1.0 + 2.220446049250313e-16, 1.0 + 4.5e-16, -1.0, 2.0, 1e300};
  static const std::string strings[] = {"", "a", "b", "ab", "a.b", std::string("a\0b", 3), std::string("a\0c", 3)};
  switch (verif_rand() % (depth > 0 ? 6 : 4)) {
    case 1: return Value(verif_rand() % 2 == 0);
    case 2: return Value(numbers[verif_rand() % 8]);
    case 3: return Value(std::string(strings[verif_rand() % 7]));
    case 4: {
      Value::Array a;
      for (auto n = verif_rand() % 3; n > 0; n--) a.push_back(RandomValue(depth - 1));
      return Value(std::move(a));
    }
    case 5: {
      Value::Object o;
      for (auto n = verif_rand() % 3; n > 0; n--) o.emplace(strings[verif_rand() % 7], RandomValue(depth - 1));
      return Value(std::move(o));
    }
  }
  return Value();
}
#endif
}  // namespace values
#ifndef VERIF_SYMBOLIC
#include <deque>
namespace values {
inline bool Identical(const Value& a, const Value& b) {
  if (a.type() != b.type()) return false;
  switch (a.type()) {
    case Type::kNull: return true;
    case Type::kBool: return a.GetBool() == b.GetBool();
    case Type::kNumber: return a.GetDouble() == b.GetDouble();
    case Type::kString: return a.GetString() == b.GetString();
    case Type::kArray: {
      const auto &x = a.GetArray(), &y = b.GetArray();
      if (x.size() != y.size()) return false;
      for (size_t i = 0; i < x.size(); i++) if (!Identical(x[i], y[i])) return false;
      return true;
    }
    case Type::kObject: {
      const auto &x = a.GetObject(), &y = b.GetObject();
      if (x.size() != y.size()) return false;
      for (auto i = x.begin(), j = y.begin(); i != x.end(); ++i, ++j) if (i->first != j->first || !Identical(i->second, j->second)) return false;
      return true;
    }
  }
  abort();
}
// A copy made without Value::Clone.
inline Value Copy(const Value& v) {
  switch (v.type()) {
    case Type::kNull: return Value();
    case Type::kBool: return Value(v.GetBool());
    case Type::kNumber: return Value(v.GetDouble());
    case Type::kString: return Value(std::string(v.GetString()));
    case Type::kArray: {
      Value::Array a;
      for (const auto& e : v.GetArray()) a.push_back(Copy(e));
      return Value(std::move(a));
    }
    case Type::kObject: {
      Value::Object o;
      for (const auto& e : v.GetObject()) o.emplace(e.first, Copy(e.second));
      return Value(std::move(o));
    }
  }
  abort();
}
inline std::deque<Value>& Remembered() { static std::deque<Value> r; return r; }
}  // namespace values
extern "C" inline uint64_t verif_remember(const rst::Value* v) {
  auto& r = values::Remembered();
  if (r.size() > 1000) r.clear();
  r.push_back(values::Copy(*v));
  return r.size() - 1;
}
extern "C" inline bool verif_remembered(const rst::Value* v, uint64_t content) { return values::Identical(*v, values::Remembered()[content]); }
namespace values {
// Mostly few, sometimes some, rarely many.
inline size_t RandomCount() {
  const auto r = verif_rand() % 256;
  return r == 0 ? verif_rand() % 3000 : r < 16 ? verif_rand() % 80 : verif_rand() % 4;
}
}  // namespace values
extern "C" inline void verif_any_array(rst::Value::Array* p, const char*) {
  const auto n = values::RandomCount();
  while (p->size() < n) p->push_back(values::RandomValue(n > 3 ? 0 : 2));
}
extern "C" inline void verif_any_object(rst::Value::Object* p, const char*) {
  static const std::string keys[] = {"", "a", "b", "ab", "a.b", "c", std::string("a\0b", 3), std::string("a\0c", 3)};
  const auto n = values::RandomCount();
  for (size_t i = 0; i < n; i++) p->emplace(i < 3 ? keys[verif_rand() % 8] : std::to_string(verif_rand() % 100000), values::RandomValue(n > 3 ? 0 : 2));
}
extern "C" inline void verif_any_entries(rst::Value::Object* p, const char* name) { verif_any_object(p, name); }
extern "C" inline const rst::Value::Object::value_type* verif_nth(const rst::Value::Object* p, size_t i) { return &*std::next(p->begin(), static_cast<long>(i)); }
#endif
#endif
