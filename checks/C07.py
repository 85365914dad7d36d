from vf.driver import Check, H
import vf.files as F
from vf.lists import rst_loops
W = ("fopen", "fwrite", "fread", "fclose", "fflush", "ferror", "rename", "remove", "unlink", "_ZNSt10filesystem6removeERKNS_7__cxx114pathERSt10error_code",
     "_ZNSt10filesystem6renameERKNS_7__cxx114pathES3_RSt10error_code", "_ZNSt10filesystem9file_sizeERKNS_7__cxx114pathERSt10error_code")
LIBS = ["-Wl," + ",".join("--wrap=" + w for w in W)]
SRC = ["rst/files/file_utils.cc", "rst/guid/guid.cc", "rst/random/random_device.cc", "rst/strings/str_cat.cc", "rst/status/status.cc"]
L = rst_loops(F.LOOP, but=r"^rst::(StrCat|Guid|internal)")
CHECK = Check("C07", ["C07.cc"], SRC, [H("Write", loops=L), H("Read", loops=L)], native_files=["files_native.cc"], libs=LIBS,
    trusted=["C streams: fread delivers what it is asked for except at the end of the file or on an error, fwrite all bytes or an error [C17 7.21]"],
    assumptions=["sizes of files and texts up to 2^40 bytes; memory suffices"])
