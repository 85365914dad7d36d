// What the harnesses of the file functions observe.
#ifndef FILES_H_
#define FILES_H_
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>

#include "rst/files/file_utils.h"
#include "rst/rtti/rtti.h"
#include "verif.h"

extern "C" {
std::FILE* verif_opened();               // the last stream opened, or null
size_t verif_opens();
uint32_t verif_faults();                 // 1 open, 2 read, 4 write, 8 close, 16 rename, 32 remove
bool verif_mode_writes(std::FILE* f);    // opened for writing, emptied
size_t verif_path_size(std::FILE* f);
char verif_path_byte(std::FILE* f, size_t i);
size_t verif_out_size(std::FILE* f);     // what was written
char verif_out_byte(std::FILE* f, size_t i);
size_t verif_out_closed(std::FILE* f);
size_t verif_in_size(std::FILE* f);      // what can be read
char verif_in_byte(std::FILE* f, size_t i);
void verif_watch(const char* path, const char* data, size_t n);
bool verif_replaced();                   // the target was replaced by the complete data
size_t verif_left_behind();              // files created since, not renamed, and not (tried to be) removed
}

namespace files {
// A path of a file; native runs use the scratch directory and prepare it.
#ifdef VERIF_SYMBOLIC
inline const char* Path() { return verif::any_cstr("path"); }
inline void Prepare(bool, std::string_view) {}
#else
const char* Path();
void Prepare(bool exists, std::string_view content);
#endif

inline bool EndsWith(const std::string& s, const char* t) {
  const size_t n = std::strlen(t);
  if (s.size() < n) return false;
  size_t i = verif::any<size_t>("character of the name");
  if (verif_native()) return s.compare(s.size() - n, n, t) == 0;
  return i >= n || s[s.size() - n + i] == t[i];
}
// An open failure is a FileOpenError, any other one a FileError; both name the file.
inline void CheckError(rst::Status* st, const char* path, bool names) {
  auto e = st->GetError();
  const bool open_failed = (verif_faults() & 1) != 0;
  verif_check(rst::dyn_cast<rst::FileError>(e) != nullptr, "every failure is a FileError");
  verif_check((rst::dyn_cast<rst::FileOpenError>(e) != nullptr) == open_failed, "a FileOpenError exactly when opening failed");
  if (names) verif_check(EndsWith(e->AsString(), path), "the error names the file");
}
}  // namespace files
#endif
