// Native stand-ins: the file operations of the code under test go through
// these wrappers (linked with --wrap), which record them, inject failures and
// look at the watched target before and after each of them.
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <vector>

#include "files.h"

namespace {
namespace fs = std::filesystem;
bool active, watching, old_exists;
std::string dir, path, old_content, new_content;
struct Stream { std::FILE* f; std::string path, mode; size_t closed; bool failed; };
std::vector<Stream> streams;
size_t opens;
bool last_ok;
uint32_t faults, rate;
bool remove_failed, bad_path;

bool Slurp(const std::string& p, std::string* out) {
  out->clear();
  const int fd = ::open(p.c_str(), O_RDONLY);
  if (fd < 0) return false;
  char b[65536];
  ssize_t n;
  while ((n = ::read(fd, b, sizeof b)) > 0) out->append(b, static_cast<size_t>(n));
  ::close(fd);
  return true;
}
bool IsNew() {
  std::string now;
  return Slurp(path, &now) && now == new_content;
}
void Step() {
  if (!watching) return;
  std::string now;
  const bool e = Slurp(path, &now);
  verif_check((e == old_exists && now == old_content) || (e && now == new_content),
              "the target holds its previous content or the complete new data at every point");
}
bool Fails(uint32_t bit) {
  if (!active || verif_rand() % rate != 0) return false;
  faults |= bit;
  return true;
}
Stream* Find(std::FILE* f) {
  for (auto i = streams.size(); i-- > 0;)
    if (streams[i].f == f) return &streams[i];
  return nullptr;
}
}  // namespace

extern "C" {
std::FILE* __real_fopen(const char*, const char*);
size_t __real_fwrite(const void*, size_t, size_t, std::FILE*);
size_t __real_fread(void*, size_t, size_t, std::FILE*);
int __real_fclose(std::FILE*);
int __real_fflush(std::FILE*);
int __real_ferror(std::FILE*);
int __real_rename(const char*, const char*);
int __real_remove(const char*);
int __real_unlink(const char*);
bool __real__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(const fs::path&, std::error_code&);
void __real__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code(const fs::path&, const fs::path&, std::error_code&);
uintmax_t __real__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(const fs::path&, std::error_code&);

std::FILE* __wrap_fopen(const char* p, const char* m) {
  if (!active) return __real_fopen(p, m);
  opens++;
  last_ok = false;
  Step();
  std::FILE* f = Fails(1) ? nullptr : __real_fopen(p, m);
  if (f == nullptr) faults |= 1;
  Step();
  if (f == nullptr) return nullptr;
  if (verif_rand() % 3 == 0) std::setvbuf(f, nullptr, _IONBF, 0);
  for (auto& s : streams) if (s.f == f) s.f = nullptr;
  streams.push_back({f, p, m, 0, false});
  last_ok = true;
  return f;
}
size_t __wrap_fwrite(const void* p, size_t s, size_t n, std::FILE* f) {
  if (!active) return __real_fwrite(p, s, n, f);
  if (n > 0 && Fails(4)) {
    n = verif_rand() % n;
    const auto r = __real_fwrite(p, s, n, f);
    std::fflush(f);
    Step();
    return r;
  }
  const auto r = __real_fwrite(p, s, n, f);
  if (r != n) faults |= 4;
  Step();
  return r;
}
size_t __wrap_fread(void* p, size_t s, size_t n, std::FILE* f) {
  if (!active) return __real_fread(p, s, n, f);
  if (n > 0 && Fails(2)) {
    n = verif_rand() % n;
    if (auto x = Find(f)) x->failed = true;
    return __real_fread(p, s, n, f);
  }
  return __real_fread(p, s, n, f);
}
int __wrap_ferror(std::FILE* f) {
  auto x = active ? Find(f) : nullptr;
  if (x != nullptr && x->failed) return 1;
  const int r = __real_ferror(f);
  if (active && r != 0) faults |= 2;
  return r;
}
int __wrap_fflush(std::FILE* f) {
  if (!active) return __real_fflush(f);
  const int r = __real_fflush(f);
  Step();
  if (r != 0) faults |= 4;
  return r == 0 && Fails(4) ? EOF : r;
}
int __wrap_fclose(std::FILE* f) {
  if (!active) return __real_fclose(f);
  auto x = Find(f);
  if (x != nullptr) x->closed++;
  const int r = __real_fclose(f);
  if (r != 0) faults |= 8;
  const bool fails = r == 0 && Fails(8);
  std::string now;
  // The last buffer is lost.
  if (fails && x != nullptr && x->mode[0] == 'w' && Slurp(x->path, &now) && !now.empty()) (void)!::truncate(x->path.c_str(), static_cast<off_t>(now.size() / 2));
  Step();
  return fails ? EOF : r;
}
void __wrap__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code(const fs::path& a, const fs::path& b, std::error_code& ec) {
  if (!active) return __real__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code(a, b, ec);
  Step();
  if (Fails(16)) ec = std::make_error_code(std::errc::permission_denied);
  else __real__ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code(a, b, ec);
  if (ec) faults |= 16;
  Step();
}
int __wrap_rename(const char* a, const char* b) {
  if (!active) return __real_rename(a, b);
  Step();
  const int r = Fails(16) ? -1 : __real_rename(a, b);
  if (r != 0) faults |= 16;
  Step();
  return r;
}
bool __wrap__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(const fs::path& a, std::error_code& ec) {
  if (!active) return __real__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(a, ec);
  Step();
  if (Fails(32)) { ec = std::make_error_code(std::errc::permission_denied); return false; }
  const bool r = __real__ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code(a, ec);
  if (ec) faults |= 32;
  Step();
  return r;
}
int __wrap_remove(const char* a) {
  if (!active) return __real_remove(a);
  Step();
  const int r = Fails(32) ? -1 : __real_remove(a);
  Step();
  return r;
}
int __wrap_unlink(const char* a) {
  if (!active) return __real_unlink(a);
  Step();
  const int r = Fails(32) ? -1 : __real_unlink(a);
  Step();
  return r;
}
uintmax_t __wrap__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(const fs::path& a, std::error_code& ec) {
  if (!active) return __real__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(a, ec);
  switch (verif_rand() % 5) {
    case 0: ec = std::make_error_code(std::errc::permission_denied); return static_cast<uintmax_t>(-1);
    case 1: ec.clear(); return verif_rand() % 50;
    default: return __real__ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code(a, ec);
  }
}

void verif_reset() {
  active = watching = last_ok = false;
  faults = 0; opens = 0;
  for (auto& s : streams) if (s.f != nullptr && s.closed == 0) __real_fclose(s.f);
  streams.clear();
  const char* d = std::getenv("VERIF_SCRATCH");
  dir = d != nullptr ? d : ".";
  const auto base = dir;
  dir += "/files";
  ::mkdir(dir.c_str(), 0777);
  if (DIR* l = ::opendir(dir.c_str())) {
    while (auto e = ::readdir(l))
      if (e->d_name[0] != '.') ::unlink((dir + "/" + e->d_name).c_str());
    ::closedir(l);
  }
}
std::FILE* verif_opened() { return last_ok ? streams.back().f : nullptr; }
size_t verif_opens() { return opens; }
uint32_t verif_faults() { return faults; }
bool verif_mode_writes(std::FILE*) { return true; }  // seen in the content
size_t verif_path_size(std::FILE* f) { return Find(f)->path.size(); }
char verif_path_byte(std::FILE* f, size_t i) { return Find(f)->path[i]; }
static std::string out;
size_t verif_out_size(std::FILE* f) { Slurp(Find(f)->path, &out); return out.size(); }
char verif_out_byte(std::FILE*, size_t i) { return out[i]; }
size_t verif_out_closed(std::FILE* f) { return Find(f)->closed; }
size_t verif_in_size(std::FILE* f) { return verif_out_size(f); }
char verif_in_byte(std::FILE* f, size_t i) { return verif_out_byte(f, i); }
void verif_watch(const char*, const char* data, size_t n) {
  new_content.assign(data, n);
  watching = true;
}
bool verif_replaced() { return IsNew(); }
size_t verif_left_behind() {
  size_t n = 0;
  if (DIR* l = ::opendir(dir.c_str())) {
    while (auto e = ::readdir(l))
      if (e->d_name[0] != '.' && dir + "/" + e->d_name != path) n++;
    ::closedir(l);
  }
  return (faults & 32) != 0 ? 0 : n;
}
}

namespace files {
const char* Path() {
  const unsigned k = verif_rand() % 12;
  path = k == 0 ? dir + "/none/f" : k == 1 ? dir + "/a name.txt" : dir + "/f";
  return path.c_str();
}
void Prepare(bool exists, std::string_view content) {
  old_exists = exists;
  old_content.clear();
  if (exists) {
    std::string c(content);
    if (verif_rand() % 20 == 0) c.resize(300000, 'x');
    if (auto f = __real_fopen(path.c_str(), "wb")) {
      __real_fwrite(c.data(), 1, c.size(), f);
      __real_fclose(f);
      old_content = c;
    } else {
      old_exists = false;
    }
  }
  rate = verif_rand() % 3 == 0 ? 1000000 : 6;
  active = true;
}
}  // namespace files
