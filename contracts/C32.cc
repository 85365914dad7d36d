// Contracts of the check and branch-hint macros in checked builds.
#include "rst/check/check.h"
#include "rst/macros/macros.h"
#include "rst/macros/optimization.h"
#include "verif.h"

#ifdef NDEBUG
#error this file checks checked builds
#endif

HARNESS(CheckMacro) {
  int n = 0, elsewhere = 0;
  const bool c = verif::any<bool>("c"), guard = verif::any<bool>("guard");
  verif_expect_abort(guard && !c, "RST_CHECK aborts iff its condition is false");
  if (guard)
    RST_CHECK((n++, c));
  else
    elsewhere++;
  verif_end_expect();
  verif_check(n == (guard ? 1 : 0) && elsewhere == (guard ? 0 : 1), "RST_CHECK evaluates its condition once and is one statement");
  const int x = verif::any<int>("x"), y = verif::any<int>("y");
  verif_expect_abort(!(x & y), "RST_CHECK of an integer aborts iff it is zero");
  RST_CHECK(x & y);
  verif_end_expect();
  verif_expect_abort(!(x > 0 || y > 0), "RST_CHECK of an unparenthesised disjunction");
  RST_CHECK(x > 0 || y > 0);
  verif_end_expect();
  int* const p = verif::any<bool>("null") ? nullptr : &n;
  verif_expect_abort(p == nullptr, "RST_CHECK of a pointer");
  RST_CHECK(p);
  verif_end_expect();
}

HARNESS(CheckWide) {
  const auto w = verif::any<uint64_t>("w");
  verif_expect_abort(w == 0, "RST_CHECK of a wide integer aborts iff it is zero");
  RST_CHECK(w);
  verif_end_expect();
  const double d = verif::any<double>("d");
  verif_expect_abort(d == 0, "RST_CHECK of a floating-point number aborts iff it is zero");
  RST_CHECK(d);
  verif_end_expect();
}

HARNESS(DcheckMacro) {
  int n = 0, elsewhere = 0;
  const bool c = verif::any<bool>("c"), guard = verif::any<bool>("guard");
  verif_expect_abort(guard && !c, "RST_DCHECK aborts iff its condition is false in checked builds");
  if (guard)
    RST_DCHECK((n++, c));
  else
    elsewhere++;
  verif_end_expect();
  verif_check(n == (guard ? 1 : 0) && elsewhere == (guard ? 0 : 1), "RST_DCHECK evaluates its condition once");
  const int x = verif::any<int>("x"), y = verif::any<int>("y");
  verif_expect_abort(!(x & y), "RST_DCHECK of an integer aborts iff it is zero");
  RST_DCHECK(x & y);
  verif_end_expect();
  verif_expect_abort(!(x > 0 || y > 0), "RST_DCHECK of an unparenthesised disjunction");
  RST_DCHECK(x > 0 || y > 0);
  verif_end_expect();
  verif_check(static_cast<bool>(RST_BUILDFLAG(DCHECK_IS_ON)), "the build flag is on");
}

HARNESS(NotReached) {
  verif_expect_abort(true, "RST_NOTREACHED aborts in checked builds");
  RST_NOTREACHED();
  verif_end_expect();
}

namespace {
template <class T>
void Hints(const char* name) {
  const T x = verif::any<T>(name);
  int n = 0;
  verif_check(static_cast<T>(RST_LIKELY_EQ(x, 7)) == x, "RST_LIKELY_EQ keeps the value");
  verif_check(static_cast<T>(RST_LIKELY_EQ((n++, x), 0)) == x && n == 1, "RST_LIKELY_EQ evaluates once");
  verif_check(static_cast<T>(RST_LIKELY(x)) == x && static_cast<T>(RST_UNLIKELY(x)) == x, "RST_LIKELY and RST_UNLIKELY keep the value");
  n = 0;
  if (RST_LIKELY((n++, x))) verif_check(x != 0, "taken iff true"); else verif_check(x == 0, "taken iff true");
  if (RST_UNLIKELY((n++, x))) verif_check(x != 0, "taken iff true"); else verif_check(x == 0, "taken iff true");
  verif_check(n == 2, "evaluated once each");
}
}  // namespace

HARNESS(Hints) {
  Hints<bool>("bool");
  Hints<char>("char");
  Hints<signed char>("signed char");
  Hints<unsigned char>("unsigned char");
  Hints<short>("short");
  Hints<unsigned short>("unsigned short");
  Hints<int>("int");
  Hints<unsigned>("unsigned");
  Hints<long>("long");
  Hints<unsigned long>("unsigned long");
  Hints<long long>("long long");
  Hints<unsigned long long>("unsigned long long");
  const int a = verif::any<int>("a"), b = verif::any<int>("b");
  verif_check((RST_LIKELY(a == b) != 0) == (a == b) && (RST_UNLIKELY(a < b || a == b) != 0) == (a <= b), "comparisons");
  verif_check((RST_LIKELY_EQ(a & 15, b) == (a & 15)), "switch expressions");
}
