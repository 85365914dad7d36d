// Contracts of GUID generation, for every value of the random bits.
#include <cstring>
#include <random>
#include <string>
#include <string_view>
#include <type_traits>

#include "rst/guid/guid.h"
#include "verif.h"

using rst::Guid;

// The random source: std::random_device delivers these 32-bit words.
extern "C" {
uint32_t verif_random(size_t k);  // k-th word delivered since verif_random_start()
size_t verif_random_count();
void verif_random_start();
}
#ifndef VERIF_SYMBOLIC
static uint32_t drawn[64];
static size_t ndrawn;
uint32_t verif_random(size_t k) { return drawn[k % 64]; }
size_t verif_random_count() { return ndrawn; }
void verif_random_start() { ndrawn = 0; }
// The system's source, replaced.
std::random_device::result_type std::random_device::_M_getval() {
  uint32_t v = verif::any<uint32_t>("random word");
  const unsigned k = verif_rand() % 4;
  if (k == 0) v = 0;
  if (k == 1) v = 0xffffffff;
  drawn[ndrawn++ % 64] = v;
  return v;
}
#endif

namespace {
unsigned Digit(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99; }
bool IsDash(size_t i) { return i == 8 || i == 13 || i == 18 || i == 23; }
// The number of hexadecimal digits before position i.
size_t Nibble(size_t i) { return i - (i > 8) - (i > 13) - (i > 18) - (i > 23); }
}  // namespace

HARNESS(Form) {
  const Guid g;
  const std::string s = g.AsString();
  verif_check(s.size() == 36, "36 characters");
  for (size_t i = 0; i < 36; i++) {
    if (IsDash(i)) verif_check(s[i] == '-', "8-4-4-4-12");
    else verif_check(Digit(s[i]) < 16, "lower-case hexadecimal digits");
  }
  verif_check(s[14] == '4', "version digit 4");
  verif_check(s[19] == '8' || s[19] == '9' || s[19] == 'a' || s[19] == 'b', "variant digit in 8, 9, a, b");
  verif_check(Guid::IsValid(s) && Guid::IsValidOutputString(s), "the validators accept it");
}

HARNESS(Bits) {
  verif_random_start();
  const Guid g;
  verif_check(verif_random_count() == 4, "128 random bits are drawn");
  const std::string s = g.AsString();
  verif_check(s.size() == 36, "36 characters");
  for (size_t i = 0; i < 36; i++) {
    if (IsDash(i) || i == 14) continue;
    const size_t n = Nibble(i);
    const unsigned r = (verif_random(n / 8) >> (28 - 4 * (n % 8))) & 15;
    if (i == 19) verif_check((Digit(s[i]) & 3) == (r & 3), "two bits of the variant digit are random bits");
    else verif_check(Digit(s[i]) == r, "every other digit is four of the random bits");
  }
}

// Different random bits give different GUIDs.
HARNESS(Distinct) {
  verif_random_start();
  const Guid g, h;
  verif_check(verif_random_count() == 8, "each GUID draws its own 128 bits");
  const std::string s = g.AsString(), t = h.AsString();
  bool same = true;
  for (size_t k = 0; k < 4; k++) {
    const uint32_t mask = k == 1 ? 0xffff0fff : k == 2 ? 0x3fffffff : 0xffffffff;
    if ((verif_random(k) & mask) != (verif_random(k + 4) & mask)) same = false;
  }
  bool equal = true;
  for (size_t i = 0; i < 36; i++) equal = equal & (s[i] == t[i]);
  verif_check(equal == same, "equal exactly when the 122 random bits are equal");
}

HARNESS(Views) {
  const Guid g;
  const std::string s = g.AsString(), s2 = g.AsString();
  const Guid copy = g;
  const auto v = g.AsStringView(), v2 = g.AsStringView();
  const std::string s3 = copy.AsString();
  verif_check(s.size() == 36 && s2.size() == 36 && s3.size() == 36 && v.value().size() == 36 && v2.value().size() == 36, "36 characters each time");
  for (size_t i = 0; i < 36; i++) {
    verif_check(s[i] == v.value()[i] && s[i] == v2.value()[i], "the string and the view are equal");
    verif_check(s[i] == s2[i] && s[i] == s3[i], "and stay the same");
  }
}
