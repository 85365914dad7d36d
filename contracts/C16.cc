// Contracts of the number part of rst::Value.
#include "rst/value/value.h"
#include "verif.h"

namespace {
constexpr double kMax = 9007199254740991.0;  // 2^53 - 1
bool Finite(double d) { return d - d == 0; }
// Integral within [-2^53+1, 2^53-1]: the conversion to int64 is exact.
bool Exact64(double d) { return d >= -kMax && d <= kMax && static_cast<double>(static_cast<int64_t>(d)) == d; }
bool Exact32(double d) { return d >= -2147483648.0 && d <= 2147483647.0 && static_cast<double>(static_cast<int64_t>(d)) == d; }
}  // namespace

HARNESS(FromDouble) {
  const double d = verif::any<double>("d");
  verif_expect_abort(!Finite(d), "Value(double) aborts iff not finite");
  const rst::Value v(d);
  verif_end_expect();
  verif_check(v.IsNumber() && v.type() == rst::Value::Type::kNumber, "is a number");
  verif_check(v.GetDouble() == d, "GetDouble returns the double");
  verif_check(v.IsInt64() == Exact64(d), "IsInt64 == exactly representable");
  verif_check(v.IsInt() == Exact32(d), "IsInt == exactly representable");
  verif_check(!v.IsNull() && !v.IsBool() && !v.IsString() && !v.IsArray() && !v.IsObject(), "nothing else");
}

HARNESS(GetInt64) {
  const double d = verif::any<double>("d");
  verif_assume(Finite(d));
  const rst::Value v(d);
  verif_expect_abort(!Exact64(d), "GetInt64 aborts iff not exactly representable");
  const int64_t r = v.GetInt64();
  verif_end_expect();
  verif_check(static_cast<double>(r) == d, "GetInt64 returns exactly the number");
}

HARNESS(GetInt) {
  const double d = verif::any<double>("d");
  verif_assume(Finite(d));
  const rst::Value v(d);
  verif_expect_abort(!Exact32(d), "GetInt aborts iff not exactly representable");
  const int r = v.GetInt();
  verif_end_expect();
  verif_check(static_cast<double>(r) == d, "GetInt returns exactly the number");
}

HARNESS(FromInt64) {
  const auto i = verif::any<int64_t>("i");
  const bool in = i >= -((int64_t{1} << 53) - 1) && i <= (int64_t{1} << 53) - 1;
  verif_expect_abort(!in, "Value(int64_t) aborts iff outside +-(2^53-1)");
  const rst::Value v(i);
  verif_end_expect();
  verif_check(v.IsInt64() && v.GetInt64() == i, "int64 round trip");
  verif_check(v.IsInt() == (i >= INT32_MIN && i <= INT32_MAX), "IsInt iff in the range of int");
  if (v.IsInt()) verif_check(v.GetInt() == i, "GetInt of an int64");
}

HARNESS(FromInt) {
  const auto i = verif::any<int32_t>("i");
  const rst::Value v(i);
  verif_check(v.IsInt() && v.GetInt() == i, "int round trip");
  verif_check(v.IsInt64() && v.GetInt64() == i, "int via int64");
}

HARNESS(DefaultNumber) {
  const rst::Value v(rst::Value::Type::kNumber);
  verif_check(v.IsInt() && v.GetInt() == 0 && v.IsInt64() && v.GetInt64() == 0, "default number is 0");
}
