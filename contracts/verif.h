// Contract harness interface.  Every harness is read twice: the deductive
// verifier executes it symbolically (verif_any = any value at all), and the
// native runner compiles it with sanitizers and runs it on concrete values.
#ifndef VERIF_H_
#define VERIF_H_
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <string>
#include <string_view>

extern "C" {
uint64_t verif_any(uint32_t bits, const char* name);
double verif_any_double(const char* name);
void verif_assume(bool c);
void verif_check(bool c, const char* label);
// From here to verif_end_expect() the program aborts if and only if c.
void verif_expect_abort(bool c, const char* label);
void verif_end_expect();
void verif_cover(const char* label);  // must be reachable
// A fresh array of any length and content; returns its length.
size_t verif_any_bytes(const char** p, const char* name);
// A NUL-terminated string of any length; returns its length.
size_t verif_any_cstr(const char** p, const char* name);
// Native runs only: the next verif_any_bytes/cstr mutates this text.
void verif_hint(const char* text, size_t n);
bool verif_native();
uint32_t verif_rand();  // native runs only, for choosing hints
}

// Harnesses are found by this prefix.
#define HARNESS(name) extern "C" void harness_##name()

namespace verif {
template <class T>
T any(const char* name) {
  return static_cast<T>(verif_any(sizeof(T) * 8, name));
}
template <>
inline bool any<bool>(const char* name) {
  return (verif_any(8, name) & 1) != 0;
}
template <>
inline double any<double>(const char* name) {
  return verif_any_double(name);
}
inline std::string_view any_bytes(const char* name) {
  const char* p = nullptr;
  const size_t n = verif_any_bytes(&p, name);
  return std::string_view(p, n);
}
inline const char* any_cstr(const char* name) {
  const char* p = nullptr;
  (void)verif_any_cstr(&p, name);
  return p;
}
inline void hint_any(std::initializer_list<std::string_view> l) {
  if (!verif_native()) return;
  const auto i = verif_rand() % (l.size() + 1);
  if (i < l.size()) verif_hint(l.begin()[i].data(), l.begin()[i].size());
}
inline void hint(std::string_view s) { verif_hint(s.data(), s.size()); }
// A choice among 0..n-1.
inline unsigned choice(unsigned n, const char* name) {
  const auto v = any<uint32_t>(name);
  if (verif_native()) return v % n;
  verif_assume(v < n);
  return v;
}
}  // namespace verif
#endif
