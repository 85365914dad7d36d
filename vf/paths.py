"""Value::FindPath and SetPath: what a call on an object seen only as a whole does (the induction hypothesis of C20), and how
other checks take them.  ex.paths:
  "keys"  a path is like a key: FindPath gives what the last SetPath of that path stored (paths that do not extend each other)
  "tree"  the call on a whole object (TVal), and the rest of the loop in their own bodies, by their contract"""
from .values import *
from .loops import LoopSpec

class TVal(VObj):
    """A Value with a type; for an object, asked = ((path, address or None), ...) where paths lead, stored = the paths set.
    empty: an object in which nothing else is."""
    __slots__ = ("ty", "asked", "stored", "empty")
    def __init__(self, cid, ty, asked=(), stored=(), empty=False): self.cid = cid; self.ty = ty; self.asked = asked; self.stored = stored; self.empty = empty
    def same(self, o): return isinstance(o, TVal) and same(self.cid, o.cid) and same(self.ty, o.ty) and self.empty == o.empty and self.asked is o.asked and self.stored is o.stored
    def merge(self, c, o): return None
    def part(self, ex, st, o, n):
        return self.ty if o == 0 and n == 1 else None
KOBJ = 5
def lazy_tree(ex, st, p):
    t = ex.sym("type", 8); ex.assume(st, z3.ULE(t, z3.BitVecVal(5, 8))); ex.store(st, p, VSIZE, TVal(ex.sym("content", 64), t))
def whole(ex, st, p):
    """-> the object at p: a TVal, or a Value just made as an empty object"""
    v = vobj_at(ex, st, p)
    if v is not None:
        if not isinstance(v, TVal): raise Unsupported("a path into a Value of unknown type")
        ex.require(st, eq(v.ty, KOBJ, 8), "abort", "paths lead from an object", None); return v
    m = next((c[1] for o, c in st.mem[p.b].cells.items() if isc(p.o) and p.o <= o < p.o + VSIZE and isinstance(c[1], MapO)), None)
    if not isinstance(m, MapL) or m.known or m.open: raise Unsupported("a path into an object of known content")
    return None
def unrelated(ex, st, x, y):
    same_ = lambda p, q: text_eq(ex, st, p, q) is True
    return any(same_(u, x) and same_(w, y) or same_(u, y) and same_(w, x) for u, w in st.ghost.get("unrelated", ()))
def find_in(ex, st, p, t):
    v = whole(ex, st, p)
    if v is None: return [(st, NULL)]
    for y, r in v.asked:
        if text_eq(ex, st, t, y) is True: return [(st, NULL if r is None else r)]
    if v.empty and all(unrelated(ex, st, t, y) for y in v.stored): return [(st, NULL)]
    s2 = st.fork(); fl = ex.sym("path_leads", 1); ex.assume(st, z3.Not(fl)); ex.assume(s2, fl)
    b = ex.new_blk(s2, "tree", VSIZE, "nested value"); ex.store(s2, Ptr(b.id, 0), VSIZE, VObj(ex.sym("content", 64)))
    for s, r in ((st, None), (s2, Ptr(b.id, 0))): ex.store(s, p, VSIZE, TVal(v.cid, v.ty, v.asked + ((t, r),), v.stored, v.empty))
    return [(st, NULL), (s2, Ptr(b.id, 0))]
def set_in(ex, st, p, t, vp, ins=None):
    v = whole(ex, st, p); out = []; sts = [st]
    if v is None:
        sts = [s for s, _ in dtor_value(ex, st, p, ins)]; v = TVal(0, KOBJ, (), (), True)
    for s in sts:
        b = ex.new_blk(s, "tree", VSIZE, "value set"); r = Ptr(b.id, 0)
        for u, _ in move_value(ex, s, r, vp, ins):
            ex.store(u, p, VSIZE, TVal(ex.sym("content", 64), KOBJ, tuple((y, q) for y, q in v.asked if unrelated(ex, u, t, y)) + ((t, r),), v.stored + (t,), v.empty)); out.append((u, r))
    return out

FPRX = r"^rst::Value::FindPath\(std::basic_string_view<char, std::char_traits<char> >\) const$"
SPRX = r"^rst::Value::SetPath\(std::basic_string_view<char, std::char_traits<char> >, rst::Value&&\)$"
def text_of(ex, st, n, p): return Text(n, read_span(ex, st, p, n))
def returned(ex, st, f, a, r):
    """r as f returns it: a pointer, or a Nullable or NotNull of it in registers or in the memory of the caller"""
    k = f.ty.ret.kind
    if k == "void": ex.store(st, a[0], 8, r); return None
    return r if k == "ptr" else [r] + [0] * (len(f.ty.ret.elems) - 1)
def results(ex, f, a, l): return [(s, returned(ex, s, f, a, r)) for s, r in l]
def entered(ex, st, f, a):
    ex.calls.append(a)
    try: return Multi(ex.run_fn(st, f, a))
    finally: ex.calls.pop()
@c(FPRX, "Value::FindPath (C20)")
def find_path(ex, st, a, ins, f):
    m = getattr(ex, "paths", None)
    if m == "keys": return Multi(ex.run_fn(st, fn_like(ex, "rst::Value::FindKey(", ") const"), a))
    if m != "tree": return NotImplemented
    if vobj_at(ex, st, a[-3]) is None: return entered(ex, st, f, a)
    return Multi(results(ex, f, a, find_in(ex, st, a[-3], text_of(ex, st, a[-2], a[-1]))))
@c(SPRX, "Value::SetPath (C20)")
def set_path(ex, st, a, ins, f):
    m = getattr(ex, "paths", None)
    if m == "keys":
        n, p = a[-3], a[-2]
        tmp = ex.new_blk(st, "alloca", 32, "path"); ex.store(st, Ptr(tmp.id, 0), 32, mk_str(ex, st, n, read_span(ex, st, p, n, ins)))
        r = ex.run_fn(st, fn_like(ex, "rst::Value::SetKey("), list(a[:-3]) + [Ptr(tmp.id, 0), a[-1]])
        for s, _ in r: drop_buf(s, s.mem[tmp.id].cells[0][1]); s.mem.pop(tmp.id)
        return Multi(r)
    if m != "tree": return NotImplemented
    if vobj_at(ex, st, a[-4]) is None: return entered(ex, st, f, a)
    return Multi(results(ex, f, a, set_in(ex, st, a[-4], text_of(ex, st, a[-3], a[-2]), a[-1], ins)))
class Tail:
    """this, the path and, for SetPath, the value: where the loop goes on with another object and the rest of the path."""
    def __init__(self, k, do): self.k = k; self.do = do       # k: where `this` is, from the end
    def entry(self, ex): return ex.calls[-1] if ex.calls else None
    def calls(self, ex, fr, f, args):
        k = self.k; xs, vs = [], []
        for b in fr.allocas:
            c0, c1 = fr.st.mem[b].cells, f.st.mem[b].cells
            for o, (n, v) in c0.items():
                w = c1.get(o)
                if w is None or same(w[1], v): continue
                if same(v, args[k]) and isinstance(w[1], Ptr) and w[1] not in xs: xs.append(w[1])
                if same(v, args[k + 2]) and o - 8 in c0 and same(c0[o - 8][1], args[k + 1]) and o - 8 in c1:
                    q = (c1[o - 8][1], w[1])
                    if not any(same(q, z) for z in vs): vs.append(q)
        for x in xs or [args[k]]:
            for n, p in vs or [(args[k + 1], args[k + 2])]:
                c = list(args); c[k], c[k + 1], c[k + 2] = x, n, p; yield c
    def contract(self, ex, st, fn, a):
        k = self.k; return results(ex, fn, a, self.do(ex, st, a[k], text_of(ex, st, a[k + 1], a[k + 2]), a))
def setup(ex):
    """Paths by the induction hypothesis."""
    ex.lazy_value = lazy_tree; ex.paths = "tree"; ex.memo_memchr = True; ex.calls = []; ex.inductive = {}
    old = ex.loop_policy
    find = LoopSpec(tail=Tail(-3, lambda ex, st, p, t, a: find_in(ex, st, p, t)))
    put = LoopSpec(tail=Tail(-4, lambda ex, st, p, t, a: set_in(ex, st, p, t, a[-1])))
    def pol(fn, h):
        d = demangle(fn.name)
        return find if re.search(FPRX, d) else put if re.search(SPRX, d) else old(fn, h)
    ex.loop_policy = pol
def setup_keys(ex): lazy_setup(ex); ex.paths = "keys"
def lazy_setup(ex): ex.lazy_value = lazy_opaque
@x("verif_assume_unrelated")
def assume_unrelated(ex, st, a, ins, f):
    t, u = text_of(ex, st, a[0], a[1]), text_of(ex, st, a[2], a[3]); ex.assume(st, NOT(text_eq(ex, st, t, u))); st.ghost["unrelated"] = st.ghost.get("unrelated", ()) + ((t, u),)
