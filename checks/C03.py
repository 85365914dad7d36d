from vf.driver import Check, H
from vf.stdc import *
import vf.texts
@x("verif_g_size")
def g_size(ex, st, a, ins, f): return g_text("", a[0])[0]
@x("verif_g_byte")
def g_byte(ex, st, a, ins, f): return g_text("", a[0])[1](a[1])
def lg(ex, st, p): return ex.load(st, p, 16, "o")
@x("verif_lg_size")
def lg_size(ex, st, a, ins, f): return g_text("L", lg(ex, st, a[0]))[0]
@x("verif_lg_byte")
def lg_byte(ex, st, a, ins, f): return g_text("L", lg(ex, st, a[0]))[1](a[1])
CHECK = Check("C03", ["C03.cc"], [], [H(n) for n in ("Short", "UnsignedShort", "Int", "UnsignedInt", "Long", "UnsignedLong", "LongLong", "UnsignedLongLong", "SignedChar", "UnsignedChar",
    "Enums", "Bool", "Char", "Texts", "Double", "Float", "LongDouble")],
    trusted=["std::to_chars writes the decimal text of its value and fails if it does not fit", "sprintf with %g/%Lg writes at most 13/14 characters and a NUL (C locale)"],
    assumptions=["enums with underlying type bool or char render as bool or char"])
