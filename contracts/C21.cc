// Contracts of rst::Preferences over a MemoryPreferencesStore.
#include <cstring>
#include <memory>

#include "rst/preferences/memory_preferences_store.h"
#include "rst/preferences/preferences.h"
#include "values.h"

using rst::Preferences;
using rst::Value;
using values::AnyGiven;
using values::Given;

namespace {
// The types of preferences: bool, int, double, string, array, object.
constexpr unsigned kTypes = 6;
bool SameValueType(unsigned a, unsigned b) { return a == b || (a + b == 3 && a != 0 && b != 0); }  // int and double are numbers

struct Pref {
  std::string_view path;
  unsigned type = 0;
};
Given AnyOf(unsigned type, const char* payload) {
  if (type != 1) return AnyGiven(type == 0 ? 1 : type, payload);
  Given g;
  g.kind = 2;
  g.d = verif::any<int>(payload);
  return g;
}
std::string_view AnyPath(const char* name) {
  verif::hint_any({"a", "b", "a.b", "a.c", "b.c.d", "b.c.e", "", ".", "a..b"});
  return verif::any_bytes(name);
}
// Neither path is the other one or continues it.
void AssumeUnrelated(std::string_view p, std::string_view q) {
#ifdef VERIF_SYMBOLIC
  verif_assume(p != q);  // SetPath and FindPath are taken by their contract for unrelated paths
#else
  const std::string a = std::string(p) + ".", b = std::string(q) + ".";
  verif_assume(a.rfind(b, 0) != 0 && b.rfind(a, 0) != 0);
#endif
}
void Register(Preferences& prefs, const Pref& p, const Given& g) {
  switch (p.type) {
    case 0: prefs.RegisterBoolPreference(std::string(p.path), g.b); break;
    case 1: prefs.RegisterIntPreference(std::string(p.path), static_cast<int>(g.d)); break;
    case 2: prefs.RegisterDoublePreference(std::string(p.path), g.d); break;
    case 3: prefs.RegisterStringPreference(std::string(p.path), std::string(g.s)); break;
    case 4: prefs.RegisterArrayPreference(std::string(p.path), values::MakeArray(g.id)); break;
    case 5: prefs.RegisterObjectPreference(std::string(p.path), values::MakeObject(g.id)); break;
  }
}
void Set(Preferences& prefs, const Pref& p, const Given& g) {
  switch (p.type) {
    case 0: prefs.SetBool(p.path, g.b); break;
    case 1: prefs.SetInt(p.path, static_cast<int>(g.d)); break;
    case 2: prefs.SetDouble(p.path, g.d); break;
    case 3: prefs.SetString(p.path, std::string(g.s)); break;
    case 4: prefs.SetArray(p.path, values::MakeArray(g.id)); break;
    case 5: prefs.SetObject(p.path, values::MakeObject(g.id)); break;
  }
}
void CheckReads(const Preferences& prefs, const Pref& p, const Given& g) {
  switch (p.type) {
    case 0: verif_check(prefs.GetBool(p.path) == g.b, "a bool preference reads as its last value or its default"); break;
    case 1: verif_check(prefs.GetInt(p.path) == static_cast<int>(g.d), "an int preference reads as its last value or its default"); break;
    case 2: verif_check(prefs.GetDouble(p.path) == g.d, "a double preference reads as its last value or its default"); break;
    case 3: verif_check(std::string_view(prefs.GetString(p.path)) == g.s, "a string preference reads as its last value or its default"); break;
    case 4: {
      const auto& a = prefs.GetArray(p.path);
      verif_check(a.size() == 1 && a[0].GetDouble() == g.id, "an array preference reads as its last value or its default");
      break;
    }
    case 5: {
      const auto& o = prefs.GetObject(p.path);
      const auto it = o.find(std::string_view("id"));
      verif_check(o.size() == 1 && it != o.cend() && it->second.GetDouble() == g.id, "an object preference reads as its last value or its default");
      break;
    }
  }
}
void Read(const Preferences& prefs, const Pref& p) {
  switch (p.type) {
    case 0: (void)prefs.GetBool(p.path); break;
    case 1: (void)prefs.GetInt(p.path); break;
    case 2: (void)prefs.GetDouble(p.path); break;
    case 3: (void)prefs.GetString(p.path); break;
    case 4: (void)prefs.GetArray(p.path); break;
    case 5: (void)prefs.GetObject(p.path); break;
  }
}
Pref AnyPref(const char* path, const char* type) {
  Pref p;
  p.path = AnyPath(path);
  p.type = verif::choice(kTypes, type);
  return p;
}
// A preference that is only looked at: what is done to the other one does not depend on its type.
Pref OtherPref(const char* path, const char* type) {
  Pref p;
  p.path = AnyPath(path);
  p.type = verif_native() ? verif::choice(kTypes, type) : 2 + verif::choice(2, type);
  return p;
}
}  // namespace

// p and q in any state; p is set any number of times (0, 1, 2 stand for it: only the last one is seen).
HARNESS(LastValue) {
  const Pref p = AnyPref("path", "type");
  Preferences prefs(std::make_unique<rst::MemoryPreferencesStore>());
  Given last = AnyOf(p.type, "default");
  Register(prefs, p, last);
  CheckReads(prefs, p, last);
  for (unsigned n = verif::choice(3, "times set"), i = 0; i < n; i++) {
    last = AnyOf(p.type, i == 0 ? "value" : "second value");
    Set(prefs, p, last);
    CheckReads(prefs, p, last);
  }
}

HARNESS(OthersKept) {
  const Pref p = AnyPref("path", "type"), q = OtherPref("other path", "other type");
  AssumeUnrelated(p.path, q.path);
  const bool set = verif::any<bool>("other is set"), before = verif::any<bool>("path is registered first"), was_set = verif::any<bool>("path was set");
  Preferences prefs(std::make_unique<rst::MemoryPreferencesStore>());
  const Given d = AnyOf(p.type, "default"), e = AnyOf(q.type, "other default");
  Given h = d, last = e;
  if (before) {
    Register(prefs, p, d);
    if (was_set) Set(prefs, p, d);
  }
  Register(prefs, q, e);
  CheckReads(prefs, q, last);
  if (set) {
    last = AnyOf(q.type, "other value");
    Set(prefs, q, last);
  }
  if (!before) {
    Register(prefs, p, d);
    CheckReads(prefs, q, last);
    CheckReads(prefs, p, d);
  }
  h = AnyOf(p.type, "value");
  Set(prefs, p, h);
  CheckReads(prefs, q, last);
  CheckReads(prefs, p, h);
}

HARNESS(Unregistered) {
  const Pref p = AnyPref("path", "type"), q = OtherPref("registered path", "registered type");
  const bool write = verif::any<bool>("write");
  const Given d = AnyOf(q.type, "default"), g = AnyOf(p.type, "value");
  Preferences prefs(std::make_unique<rst::MemoryPreferencesStore>());
  Register(prefs, q, d);
  verif_assume(p.path != q.path);
  verif_expect_abort(true, "an unregistered preference is read or written");
  if (write) Set(prefs, p, g); else Read(prefs, p);
  verif_end_expect();
}

HARNESS(RegisteredTwice) {
  const Pref p = OtherPref("path", "type"), q = AnyPref("second path", "second type");
  const Given d = AnyOf(p.type, "default"), e = AnyOf(q.type, "second default");
  Preferences prefs(std::make_unique<rst::MemoryPreferencesStore>());
  Register(prefs, p, d);
  verif_expect_abort(p.path == q.path, "a preference is registered a second time");
  Register(prefs, q, e);
  verif_end_expect();
}

HARNESS(OtherType) {
  const Pref p = AnyPref("path", "type");
  Pref q = p;
  q.type = verif::choice(kTypes, "used type");
  const bool write = verif::any<bool>("write"), was_set = verif::any<bool>("was set");
  verif_assume(p.type != 2 || q.type != 1);  // an int read of a double preference depends on its value
  const Given d = AnyOf(p.type, "default"), h = AnyOf(p.type, "value"), g = AnyOf(q.type, "new value");
  Preferences prefs(std::make_unique<rst::MemoryPreferencesStore>());
  Register(prefs, p, d);
  if (was_set) Set(prefs, p, h);
  verif_expect_abort(!SameValueType(p.type, q.type), "a preference is used with another type");
  if (write) Set(prefs, q, g); else Read(prefs, q);
  verif_end_expect();
}
