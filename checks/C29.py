from vf.driver import Check, H
CHECK = Check("C29", ["C29.cc"], ["rst/status/status.cc", "rst/files/file_utils.cc", "rst/logger/log_error.cc"],
    [H(n) for n in ("Step", "Base", "ChainA", "ChainB", "ChainC", "ChainS", "ChainU", "Library", "NullCast")])
