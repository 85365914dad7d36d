// Contracts of reading and writing files.
#include "files.h"

namespace {
void CheckStream(const char* path, bool opened) {
  verif_check(verif_opens() == 1, "the file is opened once");
  if (!opened) return;
  std::FILE* const f = verif_opened();
  verif_check(verif_out_closed(f) == 1, "closed exactly once");
  const size_t n = std::strlen(path), i = verif::any<size_t>("path index");
  verif_check(verif_path_size(f) == n, "the named file");
  verif_check(i >= n || verif_path_byte(f, i) == path[i], "the named file");
}
}  // namespace

HARNESS(Write) {
  const char* const path = files::Path();
  const auto data = verif::any_bytes("data");
  files::Prepare(verif::any<bool>("exists"), "old content");
  size_t i = verif::any<size_t>("index");
  {
    auto st = rst::WriteFile(rst::NotNull<const char*>(path), data);
    const bool failed = st.err();
    verif_check(!failed || verif_faults() != 0, "succeeds when every operation does");
    verif_check(failed || (verif_faults() & ~4u) == 0, "a failure to open or close is reported");
    CheckStream(path, (verif_faults() & 1) == 0);
    if (failed) {
      files::CheckError(&st, path, true);
      return;
    }
  }
  std::FILE* const f = verif_opened();
  verif_check(verif_mode_writes(f), "the previous content is dropped");
  verif_check(verif_out_size(f) == data.size(), "exactly the given bytes");
  if (verif_native() && verif_out_size(f) != data.size()) return;
  if (verif_native() && data.size() > 0) i %= data.size();
  verif_check(i >= data.size() || verif_out_byte(f, i) == data[i], "exactly the given bytes");
}

HARNESS(Read) {
  const char* const path = files::Path();
  const auto content = verif_native() ? verif::any_bytes("content") : std::string_view();
  files::Prepare(true, content);
  size_t i = verif::any<size_t>("index");
  const std::filesystem::path p(path);
  {
    auto r = rst::ReadFile(p);
    verif_check(r.err() == (verif_faults() != 0), "an error exactly when an operation failed");
    CheckStream(path, (verif_faults() & 1) == 0);
    if (r.err()) {
      auto st = std::move(r).TakeStatus();
      verif_check(st.err(), "the error is handed over");
      files::CheckError(&st, path, true);
      return;
    }
    std::FILE* const f = verif_opened();
    const std::string& s = *r;
    verif_check(s.size() == verif_in_size(f), "the file's content up to its end");
    if (verif_native() && s.size() != verif_in_size(f)) return;
    if (verif_native() && s.size() > 0) i %= s.size();
    verif_check(i >= s.size() || s[i] == verif_in_byte(f, i), "the file's content, byte by byte");
  }
}
