// Contracts of the comparisons of rst::Value.
#include "values.h"

using rst::Value;
using values::AnyValue;

namespace {
unsigned Kind(const char* name) { return verif::choice(6, name); }
Value Any(unsigned kind, const char* name) {
#ifndef VERIF_SYMBOLIC
  // Near each other: small values are more frequent.
  if (verif_rand() % 4 != 0) {
    for (;;) {
      Value v = values::RandomValue(3);
      if (static_cast<unsigned>(v.type()) == kind) return v;
    }
  }
#endif
  return AnyValue(kind, name);
}
}  // namespace

HARNESS(DifferentTypes) {
  const unsigned k = Kind("kind"), l = Kind("other kind");
  verif_assume(k != l);
  const Value x = Any(k, "x"), y = Any(l, "y");
  verif_check(!(x == y), "Values of different types are not equal");
  verif_check((x < y) == (x.type() < y.type()), "Values of different types are ordered by type");
}

HARNESS(SameType) {
  const unsigned k = Kind("kind");
  const Value x = Any(k, "x"), y = Any(k, "y");
  const bool equal = x == y, less = x < y;
  switch (k) {
    case 0: verif_check(equal && !less, "null equals null"); break;
    case 1:
      verif_check(equal == (x.GetBool() == y.GetBool()), "bools are equal by value");
      verif_check(less == (!x.GetBool() && y.GetBool()), "false is less than true");
      break;
    case 2: {
      const double a = x.GetDouble(), b = y.GetDouble();
      verif_check(equal == (std::fabs(a - b) < std::numeric_limits<double>::epsilon()), "numbers are equal when closer than epsilon");
      verif_check(less == (a < b), "numbers are ordered by value");
      break;
    }
    case 3:
      verif_check(equal == (x.GetString() == y.GetString()), "strings are equal by content");
      verif_check(less == (x.GetString() < y.GetString()), "strings are ordered lexicographically");
      break;
    case 4:
      verif_check(equal == (x.GetArray() == y.GetArray()), "arrays are equal element-wise");
      verif_check(less == (x.GetArray() < y.GetArray()), "arrays are ordered lexicographically");
      break;
    case 5:
      verif_check(equal == (x.GetObject() == y.GetObject()), "objects are equal entry-wise");
      verif_check(less == (x.GetObject() < y.GetObject()), "objects are ordered lexicographically");
      break;
  }
}

HARNESS(Equality) {
  const unsigned k = Kind("kind"), l = Kind("other kind");
  const Value x = Any(k, "x"), y = Any(l, "y");
  verif_check(x == x, "equality is reflexive");
  verif_check((x == y) == (y == x), "equality is symmetric");
}

HARNESS(Derived) {
  const unsigned k = Kind("kind"), l = Kind("other kind");
  const Value x = Any(k, "x"), y = Any(l, "y");
  verif_check((x != y) == !(x == y), "!= is the negation of ==");
  verif_check((x > y) == (y < x), "> is < with the arguments exchanged");
  verif_check((x <= y) == !(y < x), "<= is the negation of >");
  verif_check((x >= y) == !(x < y), ">= is the negation of <");
}

HARNESS(Order) {
  const unsigned k = Kind("kind"), l = Kind("other kind"), m = Kind("third kind");
  const Value x = Any(k, "x"), y = Any(l, "y"), z = Any(m, "z");
  const bool xy = x < y, yx = y < x, yz = y < z, zy = z < y, xz = x < z, zx = z < x;
  verif_check(!(x < x), "less-than is irreflexive");
  verif_check(!(xy && yx), "less-than is asymmetric");
  verif_check(!(xy && yz) || xz, "less-than is transitive");
  verif_check(!(!xy && !yx && !yz && !zy) || (!xz && !zx), "incomparability is transitive");
}
