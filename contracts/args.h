// An argument list of any length with any texts, for StrCat and Format.
#ifndef VERIF_ARGS_H_
#define VERIF_ARGS_H_
#include <cstring>
#include <deque>
#include <initializer_list>
#include <string>

#include "rst/strings/arg.h"
#include "verif.h"

extern "C" {
size_t verif_args(size_t stride, const char* name, const void** p);
void verif_args_focus(size_t j, size_t r);
size_t verif_arg_size(size_t k);
size_t verif_arg_prefix(size_t k);
char verif_arg_byte(size_t k, size_t i);
}

using rst::internal::Arg;
struct Args {
  const Arg* p;
  size_t n;
  std::initializer_list<Arg> list() const {
    struct { const Arg* p; size_t n; } l{p, n};
    std::initializer_list<Arg> r;
    static_assert(sizeof r == sizeof l);
    std::memcpy(static_cast<void*>(&r), &l, sizeof r);
    return r;
  }
};

#ifdef VERIF_SYMBOLIC
inline Args AnyArgs(const char* name, int = 0) {
  const void* p = nullptr;
  const size_t n = verif_args(sizeof(Arg), name, &p);
  return {static_cast<const Arg*>(p), n};
}
#else
inline std::deque<std::string> arg_texts;
inline char* arg_mem;
inline size_t arg_n;
inline Args AnyArgs(const char* name, int want = -1) {
  arg_texts.clear();
  arg_n = want >= 0 ? want : verif::any<uint32_t>(name) % 7;
  free(arg_mem);
  arg_mem = static_cast<char*>(aligned_alloc(16, (sizeof(Arg) * arg_n + 15) / 16 * 16 + 16));
  for (size_t i = 0; i < arg_n; i++) {
    const auto t = verif::any_bytes("text");
    arg_texts.emplace_back(t);
    // Null views, too.
    if (t.empty() && verif::any<bool>("null view"))
      new (arg_mem + i * sizeof(Arg)) Arg(std::string_view());
    else
      new (arg_mem + i * sizeof(Arg)) Arg(std::string_view(arg_texts.back()));
  }
  return {reinterpret_cast<Arg*>(arg_mem), arg_n};
}
inline void verif_args_focus(size_t, size_t) {}
inline size_t verif_arg_size(size_t k) { return arg_texts[k].size(); }
inline size_t verif_arg_prefix(size_t k) {
  size_t r = 0;
  for (size_t i = 0; i < k; i++) r += arg_texts[i].size();
  return r;
}
inline char verif_arg_byte(size_t k, size_t i) { return arg_texts[k][i]; }
#endif
#endif
