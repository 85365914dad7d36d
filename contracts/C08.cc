// Contracts of replacing a file.
#include "files.h"

HARNESS(Important) {
  const char* const path = files::Path();
  const auto data = verif::any_bytes("data");
  files::Prepare(verif::any<bool>("exists"), "previous content");
  (void)verif::any<size_t>("index");
  verif_watch(path, data.data(), data.size());
  const std::filesystem::path p(path);
  auto st = rst::WriteImportantFile(p, data);
  const bool failed = st.err();
  verif_check(!failed || verif_faults() != 0, "succeeds when every operation does");
  if (failed) {
    verif_check(rst::dyn_cast<rst::FileError>(st.GetError()) != nullptr, "a FileError");
    verif_check(!verif_replaced() || (verif_native() && data == "previous content"), "the target is unchanged on failure");
  } else {
    verif_check(verif_replaced(), "the target holds the new data on success");
  }
  verif_check(verif_left_behind() == 0, "no temporary file stays behind");
}
