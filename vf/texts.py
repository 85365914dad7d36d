"""Ghost texts of numbers, shared by several checks."""
from .stdc import *
@x("verif_dec_size")
def dec_size(ex, st, a, ins, f): return dec_len(ex, st, a[0], 64, bool(a[1]))
@x("verif_dec_byte")
def dec_byte(ex, st, a, ins, f): return dec_fns(bool(a[1]), 64)[1](bv(a[0], 64), bv(a[2], 64))
