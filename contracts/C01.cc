// Contract of StrCat, for argument lists of any length.
#include "args.h"
#include "rst/strings/str_cat.h"

HARNESS(Size) {
  const Args a = AnyArgs("arguments");
  const std::string s = rst::StrCat(a.list());
  verif_check(s.size() == verif_arg_prefix(a.n), "the size is the sum of the sizes");
}

// For every argument j and every position r in it.
HARNESS(Bytes) {
  const Args a = AnyArgs("arguments");
  size_t j = verif::any<size_t>("argument"), r = verif::any<size_t>("position");
  if (verif_native()) {
    if (a.n == 0) return;
    j %= a.n;
    if (verif_arg_size(j) == 0) return;
    r %= verif_arg_size(j);
  }
  verif_assume(j < a.n);
  verif_args_focus(j, r);
  verif_assume(r < verif_arg_size(j));
  const std::string s = rst::StrCat(a.list());
  const size_t q = verif_arg_prefix(j) + r;
  verif_check(q < s.size(), "the result holds every argument");
  verif_check(s[q] == verif_arg_byte(j, r), "every byte of every argument is at its place");
}
