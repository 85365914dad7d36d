// Contract of Format, for every format text and argument list of any length.
// The meaning of a format text is defined by its tokens, one after another:
// a placeholder {} (2 characters, produces the next argument's text), an
// escaped brace {{ or }} (2 characters, produces one), any other character.
#include "args.h"
#include "rst/strings/format.h"

extern "C" {
void verif_format(const char* f, size_t n);
bool verif_format_ok();
size_t verif_format_size();
void verif_format_focus(size_t t, size_t r);
size_t verif_format_pos();
char verif_format_byte();
}

#ifndef VERIF_SYMBOLIC
namespace {
bool ok;
std::string expected;
size_t fpos;
}
void verif_format(const char* f, size_t n) {
  const size_t len = std::strlen(f);
  size_t k = 0;
  ok = true;
  expected.clear();
  for (size_t i = 0; i < len && ok;) {
    if (f[i] != '{' && f[i] != '}') {
      expected += f[i++];
    } else if (f[i] == f[i + 1]) {
      expected += f[i];
      i += 2;
    } else if (f[i] == '{' && f[i + 1] == '}' && k < n) {
      expected += arg_texts[k++];
      i += 2;
    } else {
      ok = false;
    }
  }
  if (k != n) ok = false;
}
bool verif_format_ok() { return ok; }
size_t verif_format_size() { return expected.size(); }
void verif_format_focus(size_t t, size_t r) { fpos = expected.empty() ? 0 : (t + r) % expected.size(); verif_assume(!expected.empty()); }
size_t verif_format_pos() { return fpos; }
char verif_format_byte() { return expected[fpos]; }
#endif

namespace {
const char* AnyFormat() {
  static std::string t;
  if (verif_native()) {
    t.clear();
    for (auto i = verif_rand() % 6; i > 0; i--) {
      static const char* const parts[] = {"{}", "{}", "{}", "{{", "}}", "ab", "x", "%", ""};
      t += parts[verif_rand() % 9];
    }
    if (verif_rand() % 4 != 0) verif::hint(t);
  }
  return verif::any_cstr("format");
}
std::string Call(const char* f, const Args& a) {
  // The pointer may be null when there are no arguments.
  return rst::internal::FormatAndReturnString(f, std::strlen(f), a.p, a.n);
}
}  // namespace

HARNESS(Malformed) {
  const Args a = AnyArgs("arguments");
  const char* f = AnyFormat();
  verif_format(f, a.n);
  const bool wf = verif_format_ok();
  verif_expect_abort(!wf, "Format asserts iff the format is malformed or the argument count differs");
  const std::string s = Call(f, a);
  verif_end_expect();
  verif_check(s.size() == verif_format_size(), "the size is the sum of what the tokens produce");
}

HARNESS(Bytes) {
  const Args a = AnyArgs("arguments");
  const char* f = AnyFormat();
  verif_format(f, a.n);
  verif_assume(verif_format_ok());
  verif_format_focus(verif::any<size_t>("token"), verif::any<size_t>("offset"));
  const std::string s = Call(f, a);
  const size_t q = verif_format_pos();
  verif_check(q < s.size(), "the result holds every token");
  verif_check(s[q] == verif_format_byte(), "every token's every character is at its place");
}

// Without arguments through the public template.
HARNESS(NoArguments) {
  verif_check(rst::Format("") == "", "empty");
  verif_check(rst::Format("{{}}") == "{}", "escapes");
  verif_check(rst::Format("a{{b}}c") == "a{b}c", "text");
  verif_check(rst::Format("{}-{}", {rst::internal::Arg("x"), rst::internal::Arg("yz")}) == "x-yz", "placeholders");
  verif_expect_abort(true, "missing argument");
  (void)rst::Format("{}");
  verif_end_expect();
}
