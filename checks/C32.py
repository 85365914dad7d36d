from vf.driver import Check, H
CHECK = Check("C32", ["C32.cc", "C32n.cc"], [], [H(n) for n in ("CheckMacro", "CheckWide", "DcheckMacro", "NotReached", "Hints", "UncheckedCheck", "UncheckedDcheck")])
