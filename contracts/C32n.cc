// Contracts of the check macros in unchecked builds (NDEBUG).
#ifndef NDEBUG
#define NDEBUG 1
#endif
#include "rst/check/check.h"
#include "rst/macros/macros.h"
#include "verif.h"

HARNESS(UncheckedCheck) {
  int n = 0, elsewhere = 0;
  const bool c = verif::any<bool>("c"), guard = verif::any<bool>("guard");
  verif_expect_abort(guard && !c, "RST_CHECK aborts iff its condition is false, in unchecked builds too");
  if (guard)
    RST_CHECK((n++, c));
  else
    elsewhere++;
  verif_end_expect();
  verif_check(n == (guard ? 1 : 0) && elsewhere == (guard ? 0 : 1), "RST_CHECK evaluates its condition once");
  const auto w = verif::any<uint64_t>("w");
  verif_expect_abort(w == 0, "RST_CHECK of a wide integer aborts iff it is zero");
  RST_CHECK(w);
  verif_end_expect();
  const int x = verif::any<int>("x"), y = verif::any<int>("y");
  verif_expect_abort(!(x > 0 || y > 0), "RST_CHECK of an unparenthesised disjunction");
  RST_CHECK(x > 0 || y > 0);
  verif_end_expect();
}

HARNESS(UncheckedDcheck) {
  int n = 0, elsewhere = 0;
  const bool c = verif::any<bool>("c"), guard = verif::any<bool>("guard");
  if (guard)
    RST_DCHECK((n++, c));
  else
    elsewhere++;
  RST_NOTREACHED();
  verif_check(n == 0 && elsewhere == (guard ? 0 : 1), "RST_DCHECK evaluates nothing and never aborts in unchecked builds");
  verif_check(!static_cast<bool>(RST_BUILDFLAG(DCHECK_IS_ON)), "the build flag is off");
}
