// Contracts of internal::Arg: the text of every kind of argument.
#include <cstdio>
#include <cstring>
#include <limits>
#include <string>
#include <string_view>

#include "rst/strings/arg.h"
#include "verif.h"

using rst::internal::Arg;

// The decimal text of a number and the text printf %g gives.
extern "C" {
size_t verif_dec_size(uint64_t v, bool is_signed);
char verif_dec_byte(uint64_t v, bool is_signed, size_t i);
size_t verif_g_size(double v);
char verif_g_byte(double v, size_t i);
size_t verif_lg_size(const long double* v);
char verif_lg_byte(const long double* v, size_t i);
}
#ifndef VERIF_SYMBOLIC
static char text[400];
size_t verif_dec_size(uint64_t v, bool s) {
  return s ? snprintf(text, 400, "%lld", (long long)v) : snprintf(text, 400, "%llu", (unsigned long long)v);
}
char verif_dec_byte(uint64_t v, bool s, size_t i) { verif_dec_size(v, s); return text[i]; }
size_t verif_g_size(double v) { return snprintf(text, 400, "%g", v); }
char verif_g_byte(double v, size_t i) { verif_g_size(v); return text[i]; }
size_t verif_lg_size(const long double* v) { return snprintf(text, 400, "%Lg", *v); }
char verif_lg_byte(const long double* v, size_t i) { verif_lg_size(v); return text[i]; }
#endif

namespace {
size_t Pos(size_t n) {
  size_t i = verif::any<size_t>("position");
  if (verif_native()) i = n ? i % n : 0;
  return i;
}
template <class T, class As>
void Integer() {
  T v = verif::any<T>("value");
  if (verif_native()) {
    const unsigned k = verif_rand() % 6;
    if (k == 0) v = std::numeric_limits<T>::min();
    if (k == 1) v = std::numeric_limits<T>::max();
    if (k == 2) v = static_cast<T>(verif_rand() % 200 - 100);
  }
  const As w = static_cast<As>(v);
  const bool s = static_cast<As>(-1) < As{0};
  const Arg a(v);
  verif_check(a.size() == verif_dec_size(static_cast<uint64_t>(w), s), "the size of the decimal text");
  verif_check(a.view().size() == a.size(), "view and size agree");
  const size_t i = Pos(a.size());
  verif_assume(i < a.size());
  verif_check(a.view()[i] == verif_dec_byte(static_cast<uint64_t>(w), s, i), "the decimal text of the value");
}
enum class E8 : signed char {};
enum class EU8 : unsigned char {};
enum class E16 : short {};
enum class E64 : long long {};
enum class EU64 : unsigned long {};
enum Plain { kMinus = -5, kPlus = 70000 };
}  // namespace

HARNESS(Short) { Integer<short, int64_t>(); }
HARNESS(UnsignedShort) { Integer<unsigned short, uint64_t>(); }
HARNESS(Int) { Integer<int, int64_t>(); }
HARNESS(UnsignedInt) { Integer<unsigned int, uint64_t>(); }
HARNESS(Long) { Integer<long, int64_t>(); }
HARNESS(UnsignedLong) { Integer<unsigned long, uint64_t>(); }
HARNESS(LongLong) { Integer<long long, int64_t>(); }
HARNESS(UnsignedLongLong) { Integer<unsigned long long, uint64_t>(); }
HARNESS(SignedChar) { Integer<signed char, int64_t>(); }
HARNESS(UnsignedChar) { Integer<unsigned char, uint64_t>(); }

namespace {
template <class E, class As>
void Enum() {
  using U = std::underlying_type_t<E>;
  const U v = verif::any<U>("value");
  const Arg a(static_cast<E>(v));
  const bool s = static_cast<As>(-1) < As{0};
  verif_check(a.size() == verif_dec_size(static_cast<uint64_t>(static_cast<As>(v)), s), "the size of the decimal text");
  const size_t i = Pos(a.size());
  verif_assume(i < a.size());
  verif_check(a.view()[i] == verif_dec_byte(static_cast<uint64_t>(static_cast<As>(v)), s, i), "the decimal text of the underlying integer");
}
}  // namespace
HARNESS(Enums) {
  switch (verif::choice(6, "type")) {
    case 0: Enum<E8, int64_t>(); break;
    case 1: Enum<EU8, uint64_t>(); break;
    case 2: Enum<E16, int64_t>(); break;
    case 3: Enum<E64, int64_t>(); break;
    case 4: Enum<EU64, uint64_t>(); break;
    default: {
      const bool m = verif::any<bool>("minus");
      const Arg a(m ? kMinus : kPlus);
      verif_check(a.size() == verif_dec_size(static_cast<uint64_t>(int64_t{m ? -5 : 70000}), true), "the size of an unscoped enumerator");
    }
  }
  verif_cover("done");
}

HARNESS(Bool) {
  const bool b = verif::any<bool>("b");
  const Arg a(b);
  verif_check(a.size() == (b ? 4u : 5u), "the size of true and false");
  verif_check(std::memcmp(a.view().data(), b ? "true" : "false", b ? 4 : 5) == 0, "true or false");
}
HARNESS(Char) {
  const char c = verif::any<char>("c");
  const Arg a(c);
  verif_check(a.size() == 1 && a.view()[0] == c, "the one character");
}
HARNESS(Texts) {
  const auto t = verif::any_bytes("text");
  const unsigned kind = verif::choice(3, "kind");
  const std::string s(t);
  size_t i = Pos(t.size());
  if (kind == 0) {
    const Arg a(t);
    verif_check(a.size() == t.size() && a.view().size() == t.size(), "the size of a view");
    if (i < t.size()) verif_check(a.view()[i] == t[i], "the characters of a view");
  } else if (kind == 1) {
    const Arg a(s);
    verif_check(a.size() == t.size() && a.view().size() == t.size(), "the size of a string");
    if (i < t.size()) verif_check(a.view()[i] == t[i], "the characters of a string");
  } else {
    const char* p = verif::any_cstr("c string");
    const Arg a(p);
    const rst::NotNull<const char*> np = p;
    const Arg b(np);
    const size_t n = std::strlen(p);
    verif_check(a.size() == n && a.view().size() == n && b.size() == n, "the size of a C string");
    if (verif_native() && n) i %= n;
    if (i < n) verif_check(a.view()[i] == p[i] && b.view()[i] == p[i], "the characters of a C string");
  }
}

namespace {
double AnyDouble() {
  double d = verif::any<double>("value");
  if (verif_native()) {
    switch (verif_rand() % 8) {
      case 0: d = -std::numeric_limits<double>::max(); break;
      case 1: d = std::numeric_limits<double>::denorm_min(); break;
      case 2: d = -1.23456e-308; break;
      case 3: d = static_cast<int>(verif_rand()) / 1000.0; break;
      case 4: d = -std::numeric_limits<double>::quiet_NaN(); break;
      case 5: d = -std::numeric_limits<double>::infinity(); break;
    }
  }
  return d;
}
}  // namespace
HARNESS(Double) {
  const double d = AnyDouble();
  const Arg a(d);
  verif_check(a.size() == verif_g_size(d) && a.view().size() == a.size(), "the size of the %g text");
  const size_t i = Pos(a.size());
  verif_assume(i < a.size());
  verif_check(a.view()[i] == verif_g_byte(d, i), "the %g text");
}
HARNESS(Float) {
  const float d = static_cast<float>(AnyDouble());
  const Arg a(d);
  const double w = d;
  verif_check(a.size() == verif_g_size(w) && a.view().size() == a.size(), "the size of the %g text");
  const size_t i = Pos(a.size());
  verif_assume(i < a.size());
  verif_check(a.view()[i] == verif_g_byte(w, i), "the %g text");
}
HARNESS(LongDouble) {
  long double d = AnyDouble();
  if (verif_native()) {
    if (verif_rand() % 4 == 0) d = -std::numeric_limits<long double>::max();
    if (verif_rand() % 4 == 0) d = -std::numeric_limits<long double>::denorm_min();
  }
  const Arg a(d);
  verif_check(a.size() == verif_lg_size(&d) && a.view().size() == a.size(), "the size of the %Lg text");
  const size_t i = Pos(a.size());
  verif_assume(i < a.size());
  verif_check(a.view()[i] == verif_lg_byte(&d, i), "the %Lg text");
}
