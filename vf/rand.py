"""Contract of std::random_device: any 32-bit words."""
from .stdc import *
@c(r"^std::random_device::(random_device\(\)|_M_init\(|_M_fini\(|~random_device\(\))", "std::random_device's constructor")
def rd_ctor(ex, st, a, ins, f): return None
@c(r"^std::random_device::(_M_getval|operator\(\))\(\)$", "std::random_device: any 32 bits")
def rd_draw(ex, st, a, ins, f):
    v = ex.sym("random", 32); add_input(st, "i", "random word", v)
    st.ghost["drawn"] = st.ghost.get("drawn", ()) + (v,); return v
