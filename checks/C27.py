from vf.driver import Check, H
import vf.texts
CHECK = Check("C27", ["C27.cc"], ["rst/logger/logger.cc", "rst/logger/sink.cc", "rst/strings/format.cc"],
    [H(n) for n in ("Log", "BadLevel", "NoLogger", "GlobalLogger", "Macros")],
    trusted=["std::to_chars writes the decimal text of its value"])
