from vf.driver import Check, H
import vf.stdio
CHECK = Check("C28", ["C28.cc"], ["rst/logger/file_ptr_sink.cc", "rst/logger/file_name_sink.cc", "rst/logger/sink.cc", "rst/logger/log_error.cc", "rst/strings/str_cat.cc", "rst/status/status.cc"],
    [H("Ptr"), H("PtrUnused"), H("Name"), H("Threads", proof=False, iters=60)],
    assumptions=["other threads reach a stream only through the sink's Log", "a mutex excludes the other threads"])
