// Contracts of rst::Guid::IsValid and rst::Guid::IsValidOutputString.
#include "rst/guid/guid.h"
#include "verif.h"

namespace {
bool Lower(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); }
bool Hex(char c) { return Lower(c) || (c >= 'A' && c <= 'F'); }

// The specification: any position, stated independently of the code's loop.
bool Spec(std::string_view s, bool strict) {
  if (s.size() != 36) return false;
  bool ok = true;
  for (unsigned i = 0; i < 36; i++) {
    const char c = s[i];
    if (i == 8 || i == 13 || i == 18 || i == 23) ok &= c == '-';
    else if (i == 14) ok &= c == '4';
    else if (i == 19) ok &= c == '8' || c == '9' || c == 'a' || c == 'b' || (!strict && (c == 'A' || c == 'B'));
    else ok &= strict ? Lower(c) : Hex(c);
  }
  return ok;
}
void Hint() {
  verif::hint_any({"01234567-89ab-4cde-8f01-23456789abcd", "DEADBEEF-89ab-4CDE-Bf01-23456789abcd", "01234567-89ab-1cde-8f01-23456789abcd",
                   "01234567-89ab-4cde-7f01-23456789abcd"});
}
}  // namespace

HARNESS(IsValid) {
  Hint();
  const std::string_view s = verif::any_bytes("s");
  const bool r = rst::Guid::IsValid(s);
  verif_check(r == Spec(s, false), "IsValid(s) == s is a version 4 GUID of either case");
  if (r) verif_cover("some text is valid");
}

HARNESS(IsValidOutputString) {
  Hint();
  const std::string_view s = verif::any_bytes("s");
  const bool r = rst::Guid::IsValidOutputString(s);
  verif_check(r == Spec(s, true), "IsValidOutputString(s) == s is a lower-case version 4 GUID");
  if (r) verif_cover("some text is a valid output string");
}
