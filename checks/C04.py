from vf.driver import Check, H
from vf.stdc import *
import vf.rand
@x("verif_random")
def vrandom(ex, st, a, ins, f):
    d = st.ghost.get("drawn", ())
    if not isc(a[0]): raise Unsupported("symbolic index of a random word")
    return d[a[0]] if a[0] < len(d) else ex.sym("not_drawn", 32)
@x("verif_random_count")
def vcount(ex, st, a, ins, f): return len(st.ghost.get("drawn", ()))
@x("verif_random_start")
def vstart(ex, st, a, ins, f): st.ghost["drawn"] = ()
CHECK = Check("C04", ["C04.cc"], ["rst/guid/guid.cc", "rst/random/random_device.cc"], [H(n) for n in ("Form", "Bits", "Distinct", "Views")],
    trusted=["std::random_device delivers any 32-bit words", "sprintf with %0Nx prints N hexadecimal digits of a value that fits them"])
