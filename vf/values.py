"""Contracts of std::vector<rst::Value> and std::map<std::string, rst::Value, std::less<>>.

Three representations:
  Vec over a plain block      few elements, each a real Value in memory
  Vec over Elems              any number of opaque Values (content by index)
  MapL                        the entries met so far, each a real Value in memory; `open`: further entries may exist
  MapS                        any number of opaque entries in key order
An opaque Value (VObj) is a Value seen only through its contracts: its content identity."""
from .stdc import *
from .loops import Var

B64 = z3.BitVecSort(64)
VSIZE = 56
class VObj(Obj):
    """A whole Value of unknown type; cid identifies its content."""
    size = VSIZE; whole = True
    __slots__ = ("cid",)
    def __init__(self, cid): self.cid = cid
    def same(self, o): return isinstance(o, VObj) and same(self.cid, o.cid)
    def merge(self, c, o): return VObj(ite(c, self.cid, o.cid, 64)) if isinstance(o, VObj) else None

def vobj_at(ex, st, p):
    if not isinstance(p, Ptr) or p.b not in st.mem: return None
    b = st.mem[p.b]
    if b.arr is not None and hasattr(b.arr, "elem"): return b.arr.elem(ex, st, b, p.o)
    cell = b.cells.get(p.o) if isc(p.o) else None
    return cell[1] if cell is not None and isinstance(cell[1], VObj) else None

# ---------------------------------------------------------------- helpers
def fn_named(ex, name):
    t = getattr(ex, "by_name", None)
    if t is None:
        t = ex.by_name = {}
        for f in ex.mod.fns.values(): t.setdefault(demangle(f.name), f)
    f = t.get(name)
    if f is None: raise Unsupported("%s is not in the program" % name)
    return f
def fn_like(ex, start, end=""):
    r = [f for f in ex.mod.fns.values() if demangle(f.name).startswith(start) and demangle(f.name).endswith(end)]
    if len(r) != 1: raise Unsupported("%s is not in the program" % start)
    return r[0]
def callm(ex, st, f, args, ins):
    """Call; the forks of a contract are resolved here."""
    try: r = ex.call(st, f, args, ins)
    except Fork as k:
        s1, s2 = ex.fork_on(st, k.cond)
        return callm(ex, s1, f, args, ins) + callm(ex, s2, f, args, ins)
    except PathEnd: return []
    return list(r) if isinstance(r, Multi) else [(st, r)]
def chain(ex, st, steps):
    """Steps are functions of a state giving [(state, value)]; -> states after all of them."""
    cur = [st]
    for s in steps: cur = [t for c_ in cur for t, _ in s(c_)]
    return cur
def dtor_value(ex, st, p, ins): return callm(ex, st, fn_named(ex, "rst::Value::~Value()"), [p], ins)
def move_value(ex, st, d, s, ins): return callm(ex, st, fn_named(ex, "rst::Value::Value(rst::Value&&)"), [d, s], ins)
def assign_value(ex, st, d, s, ins): return callm(ex, st, fn_named(ex, "rst::Value::operator=(rst::Value&&)"), [d, s], ins)
def multi(sts, v): return Multi([(s, v(s) if callable(v) else v) for s in sts])

# ---------------------------------------------------------------- opaque Values
def gets(ex, st, p): return vobj_at(ex, st, p)
@c(r"^rst::Value::Value\(rst::Value&&\)$", "Value(Value&&) of an opaque Value (C15)")
def v_move(ex, st, a, ins, f):
    v = gets(ex, st, a[1])
    if v is None: return NotImplemented
    put_obj(ex, st, a[0], v, ins); ex.store(st, a[1], VSIZE, VObj(ex.sym("moved_from", 64)))
@c(r"^rst::Value::~Value\(\)$", "~Value of an opaque Value (C15)")
def v_dtor(ex, st, a, ins, f):
    if gets(ex, st, a[0]) is None: return NotImplemented
    ex.store(st, a[0], VSIZE, UNDEF)
@c(r"^rst::Value::operator=\(rst::Value&&\)$", "Value = Value&& of opaque Values (C15)")
def v_assign(ex, st, a, ins, f):
    d, s = gets(ex, st, a[0]), gets(ex, st, a[1])
    if d is None and s is None: return NotImplemented
    if d is None or s is None:
        if d is None: return multi([t for t, _ in dtor_value(ex, st, a[0], ins) if v_move(ex, t, a, ins, f) is None], a[0])
        ex.store(st, a[0], VSIZE, UNDEF)
        return multi([t for t, _ in move_value(ex, st, a[0], a[1], ins)], a[0])
    if a[0] == a[1]: return a[0]
    ex.store(st, a[0], VSIZE, s); ex.store(st, a[1], VSIZE, VObj(ex.sym("moved_from", 64))); return a[0]
@c(r"^rst::Value::Clone\(\) const$", "Value::Clone of a nested Value (by induction on the nesting)")
def v_clone(ex, st, a, ins, f):
    v = gets(ex, st, a[1])
    if v is None: return NotImplemented
    put_obj(ex, st, a[0], VObj(v.cid), ins)
EQ = z3.Function("nested_eq", B64, B64, z3.BoolSort()); LT = z3.Function("nested_lt", B64, B64, z3.BoolSort())
@c(r"^rst::operator(==|!=|<|>|<=|>=)\(rst::Value const&, rst::Value const&\)$", "comparison of nested Values (by induction on the nesting)")
def v_cmp(ex, st, a, ins, f):
    u, v = gets(ex, st, a[0]), gets(ex, st, a[1])
    if u is None and v is None: return NotImplemented
    if u is None or v is None: raise Unsupported("comparison with an opaque Value")
    d = demangle(f.name); x, y = bv(u.cid, 64), bv(v.cid, 64)
    if "operator==" in d: return EQ(x, y)
    if "operator!=" in d: return z3.Not(EQ(x, y))
    if "operator<=" in d: return z3.Not(LT(y, x))
    if "operator>=" in d: return z3.Not(LT(x, y))
    return LT(x, y) if "operator<" in d else LT(y, x)

# ---------------------------------------------------------------- element contents
class EFn:
    """cid of element i"""
    def __init__(self, f): self.f = f
class EStore:
    def __init__(self, prev, i, v): self.prev = prev; self.i = i; self.v = v
def eread(e, i):
    while isinstance(e, EStore):
        k = eq(i, e.i)
        if not isc(k): k = fold(k)
        if isc(k):
            if k: return e.v
            e = e.prev; continue
        return ite(k, bv(e.v, 64), bv(eread(e.prev, i), 64), 64)
    if e is None: raise Unsupported("element not yet constructed")
    return e.f(bv(i, 64))

def elem_index(ex, st, o, stride):
    from .lists import lin_div
    k = lin_div(o, stride)
    if k is None and not isc(o):
        u = ex.unique(st, o)
        if u is not None and u % stride == 0: k = u // stride
    if k is None and ex.discover: k = z3.UDiv(bv(o, 64), z3.BitVecVal(stride, 64))       # the stride is not known yet; nothing is proved in this phase
    return k

class Elems:
    """Block content: opaque Values at multiples of 56."""
    def __init__(self, e): self.e = e
    def same(self, o): return isinstance(o, Elems) and self.e is o.e
    def idx(self, ex, st, b, o):
        k = elem_index(ex, st, o, VSIZE)
        if k is None: raise Unsupported("part of an opaque Value")
        return k
    def elem(self, ex, st, b, o):
        k = elem_index(ex, st, o, VSIZE)
        if k is None: return None
        return VObj(eread(self.e, k))
    def read(self, ex, st, b, o, n, want): raise Unsupported("raw read of an opaque Value")
    def write(self, ex, st, b, o, n, v):
        if n != VSIZE or not isinstance(v, VObj): raise Unsupported("raw write of an opaque Value")
        k = self.idx(ex, st, b, o); b.arr = Elems(EStore(self.e, k, v.cid))
    def content(self, ex, st, b, start, n): raise Unsupported("raw copy of opaque Values")

# ---------------------------------------------------------------- std::vector<Value>
class Vec(Obj):
    size = 24
    __slots__ = ("blk", "n", "cid")
    def __init__(self, blk, n, cid=None): self.blk = blk; self.n = n; self.cid = cid
    def same(self, o): return isinstance(o, Vec) and self.blk == o.blk and same(self.n, o.n) and same(self.cid, o.cid)
    def havoc(self, ex, st, key):
        n = ex.sym("lv_size", 64); ex.nsym += 1; e = EFn(z3.Function("lv_elems!%d" % ex.nsym, B64, B64))
        old = st.mem[self.blk].arr if self.blk else None
        if self.blk and old is None and not (isc(self.n) and self.n == 0): raise Unsupported("a loop changes a vector of real Values")
        b = ex.new_blk(st, "vecbuf", mul(n, VSIZE), "vector elements"); b.arr = Elems(e)
        ex.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
        v1 = Var("len", key, 64, self.n, n); v1.obj = lambda ex, st, x: x.n
        v2 = Var("elems", key, 64, old.e if old is not None else None, e); v2.obj = lambda ex, st, x: st.mem[x.blk].arr.e if x.blk and st.mem[x.blk].arr is not None else None
        return Vec(b.id, n, None), [v1, v2]
    def resym(self, st, val, v):
        b = st.wblk(self.blk)
        if v.kind == "len": b.size = mul(val, VSIZE); return Vec(self.blk, val, self.cid)
        b.arr = Elems(val); return self
V = r"^(rst::Value(?: const)?[&*] |void )?std::vector<rst::Value, std::allocator<rst::Value> >::"
def vget(ex, st, p, ins): return get_obj(ex, st, p, Vec, ins)
def count(st, d): st.ghost["payloads"] = st.ghost.get("payloads", 0) + d
def drop_elems(ex, st, v, ins):
    """The elements are destroyed and their memory released; -> states"""
    if not v.blk: return [st]
    if st.mem[v.blk].arr is not None: st.wblk(v.blk).alive = False; return [st]
    if not isc(v.n): raise Unsupported("vector of real Values of unknown size")
    sts = chain(ex, st, [lambda s, i=i: dtor_value(ex, s, Ptr(v.blk, VSIZE * i), ins) for i in range(v.n)])
    for s in sts: s.wblk(v.blk).alive = False
    return sts
@c(V + r"vector\((std::allocator<rst::Value> const&)?\)$", "vector()")
def vec_ctor(ex, st, a, ins, f): put_obj(ex, st, a[0], Vec(0, 0), ins); count(st, 1)
@c(V + r"vector\(std::vector<rst::Value, std::allocator<rst::Value> >&&\)$", "vector(vector&&)")
def vec_move(ex, st, a, ins, f):
    v = vget(ex, st, a[1], ins); ex.store(st, a[1], 24, Vec(0, 0)); put_obj(ex, st, a[0], v, ins); count(st, 1)
@c(V + r"~vector\(\)$", "~vector")
def vec_dtor(ex, st, a, ins, f):
    v = kill_obj(ex, st, a[0], Vec, ins); count(st, -1)
    return multi(drop_elems(ex, st, v, ins), None)
@c(V + r"operator=\(std::vector<rst::Value, std::allocator<rst::Value> >&&\)$", "vector = vector&&")
def vec_assign(ex, st, a, ins, f):
    d = vget(ex, st, a[0], ins); s = vget(ex, st, a[1], ins)
    if a[0] == a[1]: raise Unsupported("self-move of a vector")
    # the new content is taken before the old one dies
    ex.store(st, a[1], 24, Vec(0, 0)); ex.store(st, a[0], 24, s)
    return multi(drop_elems(ex, st, d, ins), a[0])
@c(V + r"swap\(", "vector::swap")
def vec_swap(ex, st, a, ins, f):
    d = vget(ex, st, a[0], ins); s = vget(ex, st, a[1], ins); ex.store(st, a[0], 24, s); ex.store(st, a[1], 24, d)
@c(V + r"clear\(\)$", "vector::clear")
def vec_clear(ex, st, a, ins, f):
    v = vget(ex, st, a[0], ins); ex.store(st, a[0], 24, Vec(0, 0)); return multi(drop_elems(ex, st, v, ins), None)
@c(V + r"size\(\) const$", "vector::size")
def vec_size(ex, st, a, ins, f): return vget(ex, st, a[0], ins).n
@c(V + r"empty\(\) const$", "vector::empty")
def vec_empty(ex, st, a, ins, f): return eq(vget(ex, st, a[0], ins).n, 0)
@c(V + r"(data|begin|cbegin)\(\)( const)?$", "vector::begin")
def vec_begin(ex, st, a, ins, f): v = vget(ex, st, a[0], ins); return Ptr(v.blk, 0)
@c(V + r"(end|cend)\(\)( const)?$", "vector::end")
def vec_end(ex, st, a, ins, f): v = vget(ex, st, a[0], ins); return Ptr(v.blk, mul(v.n, VSIZE))
@c(V + r"(operator\[\]|at)\(unsigned long\)( const)?$", "vector::operator[]")
def vec_index(ex, st, a, ins, f):
    v = vget(ex, st, a[0], ins)
    if "::at(" in demangle(f.name):
        if not ex.decide(st, ult(a[1], v.n)): ex.do_abort(st, "vector::at out of range", ins)
    else: ex.require(st, ult(a[1], v.n), "safety", "vector index in range", ins)
    return Ptr(v.blk, mul(a[1], VSIZE))
@c(V + r"(front|back)\(\)( const)?$", "vector::front/back")
def vec_front(ex, st, a, ins, f):
    v = vget(ex, st, a[0], ins); ex.require(st, NOT(eq(v.n, 0)), "safety", "front/back of a non-empty vector", ins)
    return Ptr(v.blk, 0 if "front" in demangle(f.name) else mul(sub(v.n, 1), VSIZE))
@c(V + r"reserve\(unsigned long\)$", "vector::reserve")
def vec_reserve(ex, st, a, ins, f):
    vget(ex, st, a[0], ins)       # no observable effect on the content; growth below always moves the elements
def grow(ex, st, p, v, ins):
    """A new block with one more slot, the elements moved; -> Ptr of the slot"""
    if v.blk and st.mem[v.blk].arr is not None or not isc(v.n):
        b = ex.new_blk(st, "vecbuf", mul(add(v.n, 1), VSIZE), "vector elements"); b.arr = Elems(st.mem[v.blk].arr.e if v.blk else None)
    else:
        b = ex.new_blk(st, "heap", (v.n + 1) * VSIZE, "vector elements")
        if v.blk: b.cells = dict(st.mem[v.blk].cells); b.regs = st.mem[v.blk].regs
    if v.blk: st.wblk(v.blk).alive = False
    ex.store(st, p, 24, Vec(b.id, add(v.n, 1)))
    return Ptr(b.id, mul(v.n, VSIZE))
@c(V + r"(emplace_back<rst::Value>|push_back)\(rst::Value&&\)$", "vector::push_back")
def vec_push(ex, st, a, ins, f):
    v = vget(ex, st, a[0], ins); e = vobj_at(ex, st, a[1])
    if e is not None and v.blk == 0: v = Vec(0, v.n)
    # the argument may be an element: it is read before the old block dies
    tmp = ex.new_blk(st, "alloca", VSIZE, "vector::push_back")
    if e is not None and (v.blk == 0 or st.mem[v.blk].arr is not None):
        ex.store(st, a[1], VSIZE, VObj(ex.sym("moved_from", 64)))
        n = v.n; q = grow(ex, st, a[0], v, ins) if v.blk else None
        if q is None:
            b = ex.new_blk(st, "vecbuf", mul(add(n, 1), VSIZE), "vector elements"); b.arr = Elems(EFn(lambda i: ex.sym("no_element", 64)) if not isc(n) else None); q = Ptr(b.id, mul(n, VSIZE)); ex.store(st, a[0], 24, Vec(b.id, add(n, 1)))
        blk = st.wblk(q.b); blk.arr = Elems(EStore(blk.arr.e, n, e.cid))
        return q if "emplace_back" in demangle(f.name) else None
    if v.blk and st.mem[v.blk].arr is not None: raise Unsupported("a real Value in a vector of opaque ones")
    r = []
    for s, _ in move_value(ex, st, Ptr(tmp.id, 0), a[1], ins):
        q = grow(ex, s, a[0], vget(ex, s, a[0], ins), ins); b = s.wblk(q.b)
        src = s.mem[tmp.id]
        ex.memcpy(s, q, Ptr(tmp.id, 0), VSIZE, ins)
        s.mem.pop(tmp.id); r.append((s, q if "emplace_back" in demangle(f.name) else None))
    return Multi(r)
@c(V + r"pop_back\(\)$", "vector::pop_back")
def vec_pop(ex, st, a, ins, f):
    v = vget(ex, st, a[0], ins); ex.require(st, NOT(eq(v.n, 0)), "safety", "pop_back of a non-empty vector", ins)
    if st.mem[v.blk].arr is not None or not isc(v.n): raise Unsupported("pop_back")
    ex.store(st, a[0], 24, Vec(v.blk, v.n - 1))
    return multi([s for s, _ in dtor_value(ex, st, Ptr(v.blk, VSIZE * (v.n - 1)), ins)], None)

# comparisons of whole containers: element-wise with the element's operators [container.requirements], by identity of the contents
VEQ = z3.Function("containers_equal", B64, B64, z3.BoolSort()); VLT = z3.Function("containers_less", B64, B64, z3.BoolSort())
def order_facts(ex, st, ids, eqr, ltr):
    """== is reflexive and symmetric, < is a strict weak order: instantiated for every content compared."""
    seen = st.ghost.get("compared", ())
    for n in ids:
        if any(same(n, o) for o in seen): continue
        seen += (n,); l = [bv(o, 64) for o in seen]; n = bv(n, 64); fs = []
        for u in l:
            fs += [eqr(u, n) == eqr(n, u), z3.Not(z3.And(ltr(u, n), ltr(n, u)))]
            for v in l:
                for p, q, r in ((u, v, n), (u, n, v), (n, u, v)):
                    fs += [z3.Implies(z3.And(ltr(p, q), ltr(q, r)), ltr(p, r)), z3.Implies(ltr(p, r), z3.Or(ltr(p, q), ltr(q, r)))]
        fs += [eqr(n, n), z3.Not(ltr(n, n))]; st.pc.extend(fs)
    st.ghost["compared"] = seen
def cmp_ids(d, x, y):
    if "operator==" in d: return VEQ(x, y)
    if "operator!=" in d: return z3.Not(VEQ(x, y))
    if "operator<=" in d: return z3.Not(VLT(y, x))
    if "operator>=" in d: return z3.Not(VLT(x, y))
    return VLT(x, y) if "operator<" in d else VLT(y, x)
@c(r"^bool std::operator(==|!=|<|>|<=|>=) ?<rst::Value, std::allocator<rst::Value> >\(std::vector", "comparison of vectors of Values: element-wise / lexicographic with Value's own operators")
def vec_cmp(ex, st, a, ins, f):
    u, v = vget(ex, st, a[0], ins), vget(ex, st, a[1], ins)
    if u.cid is None or v.cid is None: raise Unsupported("comparison of vectors")
    order_facts(ex, st, (u.cid, v.cid), VEQ, VLT); return cmp_ids(demangle(f.name), bv(u.cid, 64), bv(v.cid, 64))

# ---------------------------------------------------------------- std::map<std::string, Value, std::less<>>
KOFF, MOFF, NSIZE = 32, 64, 120
class MapO(Obj): size = 48
class MapL(MapO):
    """known: tuple of node blocks; absent: tuple of texts (len, node) known not to be keys; open: other keys may exist (rest: how many)"""
    size = 48
    __slots__ = ("known", "absent", "open", "cid", "rest")
    def __init__(self, known=(), absent=(), open=False, cid=None, rest=0): self.known = known; self.absent = absent; self.open = open; self.cid = cid; self.rest = rest
    def same(self, o): return isinstance(o, MapL) and self.known == o.known and self.open == o.open and len(self.absent) == len(o.absent) and all(x is y for x, y in zip(self.absent, o.absent)) and same(self.cid, o.cid) and same(self.rest, o.rest)
STRT = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >"
MT = r"std::map<%s, rst::Value, std::less<void>, std::allocator<std::pair<%s const, rst::Value> > >" % (STRT, STRT)
M = r"^(?:(?!std::_Rb_tree<|std::operator).*?)?" + MT + "::"
def mapl_havoc(self, ex, st, key):
    if self.known or self.open: raise Unsupported("a loop changes a map with known entries")
    b = ex.new_blk(st, "vecbuf", 0, "map entries"); b.arr = Nodes(None, None)
    return MapS(b.id, 0).havoc(ex, st, key)
MapL.havoc = mapl_havoc
class MapS(MapO):
    """n opaque entries in key order, 128 bytes apart in one block"""
    __slots__ = ("blk", "n")
    def __init__(self, blk, n): self.blk = blk; self.n = n
    def same(self, o): return isinstance(o, MapS) and self.blk == o.blk and same(self.n, o.n)
    def havoc(self, ex, st, key):
        n = ex.sym("lv_size", 64); ex.nsym += 1
        nk = EFn(z3.Function("lv_keys!%d" % ex.nsym, B64, B64)); nv = EFn(z3.Function("lv_vals!%d" % ex.nsym, B64, B64))
        old = st.mem[self.blk].arr; b = st.wblk(self.blk); b.arr = Nodes(nk, nv); b.size = mul(n, NODE)
        ex.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
        v1 = Var("len", key, 64, self.n, n); v1.obj = lambda ex, st, x: x.n if isinstance(x, MapS) else 0
        v2 = Var("keys", key, 64, old.k, nk); v2.obj = lambda ex, st, x: st.mem[x.blk].arr.k if isinstance(x, MapS) else None
        v3 = Var("elems", key, 64, old.v, nv); v3.obj = lambda ex, st, x: st.mem[x.blk].arr.v if isinstance(x, MapS) else None
        return MapS(self.blk, n), [v1, v2, v3]
    def resym(self, st, val, v):
        b = st.wblk(self.blk)
        if v.kind == "len": b.size = mul(val, NODE); return MapS(self.blk, val)
        b.arr = Nodes(val, b.arr.v) if v.kind == "keys" else Nodes(b.arr.k, val); return self
NODE = 128
class Nodes:
    """Block content: entry i at 128*i, its key at +32, its Value at +64."""
    def __init__(self, k, v, sorted=None): self.k = k; self.v = v; self.sorted = sorted
    def same(self, o): return isinstance(o, Nodes) and self.k is o.k and self.v is o.v
    def idx(self, ex, st, o, at):
        k = elem_index(ex, st, fold(sub(o, at)) if not isc(o) else o - at, NODE)
        return k
    def elem(self, ex, st, b, o):
        k = self.idx(ex, st, o, MOFF)
        return None if k is None else VObj(eread(self.v, k))
    def read(self, ex, st, b, o, n, want):
        k = self.idx(ex, st, o, KOFF) if n == 32 else None
        if k is None: raise Unsupported("raw read of an opaque map entry")
        r = eread(self.k, k)
        if isinstance(self.k, EFn): ex.assume(st, z3.Implies(z3.And(z3.UGT(bv(k, 64), 0), z3.ULT(bv(k, 64), z3.BitVecVal(1 << 40, 64))), z3.ULT(bv(eread(self.k, sub(k, 1)), 64), bv(r, 64))))
        s = mk_str(ex, st, KLEN(bv(r, 64)), BArrD(lambda i: KBYTE(bv(r, 64), bv(i, 64)), lambda i: z3.BoolVal(True))); st.ghost[("strid", s.buf)] = r
        ex.assume(st, z3.ULT(s.len, z3.BitVecVal(1 << 40, 64)))
        return s
    def write(self, ex, st, b, o, n, v):
        k = self.idx(ex, st, o, MOFF)
        if k is None or n != VSIZE or not isinstance(v, VObj): raise Unsupported("raw write of an opaque map entry")
        b.arr = Nodes(self.k, EStore(self.v, k, v.cid))
    def content(self, ex, st, b, start, n): raise Unsupported("raw copy of opaque map entries")
KLEN = z3.Function("key_length", B64, B64); KBYTE = z3.Function("key_byte", B64, B64, z3.BitVecSort(8))
def mget(ex, st, p, ins):
    m = get_obj(ex, st, p, MapO, ins)
    if isinstance(m, MapS): raise Unsupported("this operation on a map of many entries")
    return m
def append_entry(ex, st, a, f, hint, m, rank, vp, ins):
    """The new key is greater than every other one."""
    v = vobj_at(ex, st, vp)
    if v is None: raise Unsupported("a real Value in a map of opaque ones")
    if isinstance(m, MapS):
        if not (isc(m.n) and m.n == 0):
            last = eread(st.mem[m.blk].arr.k, sub(m.n, 1)) if not (isc(m.n) and m.n == 0) else 0
            from .loops import valid
            if not ex.discover and not valid(ex, st.pc, z3.Or(bv(m.n, 64) == 0, z3.ULT(bv(last, 64), bv(rank, 64)))): raise Unsupported("insertion into the middle of a map of many entries")
        b = st.wblk(m.blk)
    else:
        b = ex.new_blk(st, "vecbuf", 0, "map entries"); b.arr = Nodes(None, None); m = MapS(b.id, 0)
    b.size = mul(add(m.n, 1), NODE); b.arr = Nodes(EStore(b.arr.k, m.n, rank), EStore(b.arr.v, m.n, v.cid))
    ex.store(st, a[0], 48, MapS(m.blk, add(m.n, 1))); ex.store(st, vp, VSIZE, VObj(ex.sym("moved_from", 64)))
    p = Ptr(m.blk, mul(m.n, NODE)); return [(st, p if hint else [p, 1])]
def many(ex, st, a, kp, ins):
    """-> (map, key's rank) if this is an insertion into a map of many opaque entries"""
    m = get_obj(ex, st, a[0], MapO, ins); r = strid(st, sget(ex, st, kp, ins))
    if isinstance(m, MapS) and r is None: raise Unsupported("insertion of a key into a map of many entries")
    if r is not None and (isinstance(m, MapS) or (not m.known and not m.open)): return m, r
    return None
@x("_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base")
def rb_inc(ex, st, a, ins, f):
    if not isinstance(a[0], Ptr) or a[0].b not in st.mem or not isinstance(st.mem[a[0].b].arr, Nodes): raise Unsupported("iteration over this map")
    ex.access(st, a[0], NODE, "increment of a map iterator", ins); return Ptr(a[0].b, add(a[0].o, NODE))
@c(M + r"(c?begin|c?end)\(\)( const)?$", "map::begin/end")
def map_begin(ex, st, a, ins, f):
    m = get_obj(ex, st, a[0], MapO, ins); d = demangle(f.name); e = re.search(r"::c?end\(\)", d)
    if isinstance(m, MapS): return Ptr(m.blk, mul(m.n, NODE) if e else 0)
    if e or not m.known and not m.open: return end_of(a[0])
    raise Unsupported("iteration over this map")
def end_of(p): return Ptr(p.b, add(p.o, 8))
def key_text(ex, st, blk):
    s = st.mem[blk].cells[KOFF][1]; return Text(s.len, str_node(st, s))
def lookup(ex, st, p, t, ins, focus=None):
    """-> [(state, node block or None)]"""
    m = mget(ex, st, p, ins); out = []
    for k in m.known:
        if text_eq(ex, st, t, key_text(ex, st, k)) is True: return [(st, k)]
    for y in m.absent:
        if text_eq(ex, st, t, y) is True: return [(st, None)]
    cur = st
    def split(r):
        nonlocal cur
        if r is False: return None
        if r is True: s2 = cur; cur = None; return s2
        s2 = cur.fork(); s2.pc.append(r); cur.pc.append(z3.Not(r))
        if not ex.feasible(cur, True) or ex._check(cur.pc, z3.BoolVal(True))[0] == z3.unsat: cur = None
        if ex._check(s2.pc, z3.BoolVal(True))[0] == z3.unsat: return None
        return s2
    for k in m.known:
        s2 = split(text_eq(ex, cur, t, key_text(ex, cur, k)))
        if s2 is not None: out.append((s2, k))
        if cur is None: return out
    if not m.open: out.append((cur, None)); return out
    for y in m.absent:
        s2 = split(text_eq(ex, cur, t, y))
        if s2 is not None: out.append((s2, None))
        if cur is None: return out
    s2 = cur.fork(); fl = ex.sym("present", 1); ex.assume(cur, z3.Not(fl)); ex.assume(s2, fl)
    ex.store(cur, p, 48, MapL(m.known, m.absent + (t,), True, None, m.rest)); out.append((cur, None))
    nb = new_node(ex, s2, t); ex.lazy_value(ex, s2, Ptr(nb, MOFF))
    ex.assume(s2, NOT(eq(m.rest, 0))); ex.store(s2, p, 48, MapL(m.known + (nb,), m.absent, True, None, sub(m.rest, 1))); out.append((s2, nb))
    return out
def new_node(ex, st, t):
    b = ex.new_blk(st, "heap", NSIZE, "map node"); s = mk_str(ex, st, t.n, t.node)
    ex.store(st, Ptr(b.id, KOFF), 32, s); return b.id
def drop_node(ex, st, k, ins):
    s = st.mem[k].cells[KOFF][1]; drop_buf(st, s); r = []
    for t, _ in dtor_value(ex, st, Ptr(k, MOFF), ins): t.wblk(k).alive = False; r.append((t, None))
    return r
def drop_map(ex, st, m, ins):
    if isinstance(m, MapS):
        st.wblk(m.blk).alive = False; return [st]
    return chain(ex, st, [lambda s, k=k: drop_node(ex, s, k, ins) for k in m.known])
@c(M + r"map\(\)$", "map()")
def map_ctor(ex, st, a, ins, f): put_obj(ex, st, a[0], MapL(), ins); count(st, 1)
@c(M + r"map\(%s&&\)$" % MT, "map(map&&)")
def map_move(ex, st, a, ins, f):
    m = get_obj(ex, st, a[1], MapO, ins); ex.store(st, a[1], 48, MapL()); put_obj(ex, st, a[0], m, ins); count(st, 1)
@c(M + r"~map\(\)$", "~map")
def map_dtor(ex, st, a, ins, f):
    m = kill_obj(ex, st, a[0], MapO, ins); count(st, -1); return multi(drop_map(ex, st, m, ins), None)
@c(M + r"operator=\(%s&&\)$" % MT, "map = map&&")
def map_assign(ex, st, a, ins, f):
    d = get_obj(ex, st, a[0], MapO, ins); s = get_obj(ex, st, a[1], MapO, ins)
    if a[0] == a[1]: raise Unsupported("self-move of a map")
    ex.store(st, a[1], 48, MapL()); ex.store(st, a[0], 48, s); return multi(drop_map(ex, st, d, ins), a[0])
@c(M + r"swap\(", "map::swap")
def map_swap(ex, st, a, ins, f):
    d = get_obj(ex, st, a[0], MapO, ins); s = get_obj(ex, st, a[1], MapO, ins); ex.store(st, a[0], 48, s); ex.store(st, a[1], 48, d)
@c(M + r"clear\(\)$", "map::clear")
def map_clear(ex, st, a, ins, f):
    m = get_obj(ex, st, a[0], MapO, ins); ex.store(st, a[0], 48, MapL()); return multi(drop_map(ex, st, m, ins), None)
@c(M + r"(size|empty)\(\) const$", "map::size")
def map_size(ex, st, a, ins, f):
    m = get_obj(ex, st, a[0], MapO, ins)
    n = m.n if isinstance(m, MapS) else add(m.rest, len(m.known))
    return n if "size" in demangle(f.name) else eq(n, 0)
def text_arg(ex, st, p, f, ins, rx=None):
    """The key argument: a string or a string_view."""
    if re.search(r"\((std::_Rb_tree\w*<.*?> >, )?std::basic_string_view", rx or demangle(f.name)):
        ex.access(st, p, 16, "read", ins); q, n = view_at(ex, st, p, ins); return Text(n, read_span(ex, st, q, n, ins))
    s = sget(ex, st, p, ins); return Text(s.len, str_node(st, s))
@c(M + r"(find|count|contains)(<.*>)?\((%s|std::basic_string_view<char, std::char_traits<char> >) const&\)( const)?$" % STRT, "map::find")
def map_find(ex, st, a, ins, f):
    d = demangle(f.name); t = text_arg(ex, st, a[1], f, ins, d[d.rindex("("):])
    if re.search(r"::count\b", d): return Multi([(s, 1 if k is not None else 0) for s, k in lookup(ex, st, a[0], t, ins)])
    if re.search(r"::contains\b", d): return Multi([(s, k is not None) for s, k in lookup(ex, st, a[0], t, ins)])
    return Multi([(s, Ptr(k, 0) if k is not None else end_of(a[0])) for s, k in lookup(ex, st, a[0], t, ins)])
@c(M + r"at\(%s const&\)( const)?$" % STRT, "map::at")
def map_at(ex, st, a, ins, f):
    s = sget(ex, st, a[1], ins); out = []
    for t, k in lookup(ex, st, a[0], Text(s.len, str_node(st, s)), ins):
        if k is None:
            try: ex.do_abort(t, "map::at: no such key", ins)
            except PathEnd: pass
        else: out.append((t, Ptr(k, MOFF)))
    return Multi(out)
def insert_node(ex, st, p, k):
    m = get_obj(ex, st, p, MapL)
    # a text that was known to be no key is one now
    t = key_text(ex, st, k)
    ab = tuple(y for y in m.absent if text_eq(ex, st, t, y) is not True)
    if any(text_eq(ex, st, t, y) is not False and ex._check(st.pc, zb(text_eq(ex, st, t, y)))[0] != z3.unsat for y in ab): raise Unsupported("a key may equal a text known to be absent")
    ex.store(st, p, 48, MapL(m.known + (k,), ab, m.open, None, m.rest))
def take_key(ex, st, p, moved):
    s = sget(ex, st, p)
    if moved:
        ex.store(st, p, 32, mk_str(ex, st, 0, None))
        return Text(s.len, str_node(st, s)), s
    return Text(s.len, str_node(st, s)), None
def key_args(f):
    """-> (has a hint, key is moved) of insert_or_assign/try_emplace/emplace"""
    d = demangle(f.name); i = d.rindex("::insert_or_assign") if "::insert_or_assign" in d else d.rindex("::try_emplace") if "::try_emplace" in d else d.rindex("::emplace")
    args = re.sub(r"^[^(]*\(", "(", re.sub(r"^::(insert_or_assign|try_emplace|emplace_hint|emplace)(<.*?>)?\((?=std)", "(", d[i:]))
    hint = "(std::_Rb_tree" in args
    j = args.index("std::__cxx11::basic_string"); rest = args[j:]
    return hint, re.match(STRT + r"&&", rest) is not None
def result(ex, a, f, hint, k, new): return Ptr(k, 0) if hint else [Ptr(k, 0), int(new)]
@c(M + r"insert_or_assign<rst::Value>\(", "map::insert_or_assign")
def map_ioa(ex, st, a, ins, f):
    hint, mv = key_args(f); kp, vp = (a[2], a[3]) if hint else (a[1], a[2]); mm = many(ex, st, a, kp, ins)
    if mm: return Multi(append_entry(ex, st, a, f, hint, mm[0], mm[1], vp, ins))
    s = sget(ex, st, kp, ins); out = []
    for t, k in lookup(ex, st, a[0], Text(s.len, str_node(st, s)), ins):
        if k is not None: out += [(u, result(ex, a, f, hint, k, False)) for u, _ in assign_value(ex, t, Ptr(k, MOFF), vp, ins)]
        else: out += add_node(ex, t, a, f, hint, kp, mv, vp, ins)
    return Multi(out)
def add_node(ex, st, a, f, hint, kp, mv, vp, ins):
    txt, old = take_key(ex, st, kp, mv); k = new_node(ex, st, txt); out = []
    if old is not None: drop_buf(st, old)
    insert_node(ex, st, a[0], k)
    if vp is None:
        return [(u, result(ex, a, f, hint, k, True)) for u, _ in callm(ex, st, fn_named(ex, "rst::Value::Value()"), [Ptr(k, MOFF)], ins)]
    return [(u, result(ex, a, f, hint, k, True)) for u, _ in move_value(ex, st, Ptr(k, MOFF), vp, ins)]
@c(M + r"(try_emplace|emplace|emplace_hint)<(%s( const)?&?, )?rst::Value>\(" % STRT, "map::try_emplace/emplace")
def map_emplace(ex, st, a, ins, f):
    hint, mv = key_args(f); kp, vp = (a[2], a[3]) if hint else (a[1], a[2]); mm = many(ex, st, a, kp, ins)
    if mm: return Multi(append_entry(ex, st, a, f, hint, mm[0], mm[1], vp, ins))
    s = sget(ex, st, kp, ins); out = []
    for t, k in lookup(ex, st, a[0], Text(s.len, str_node(st, s)), ins):
        if k is not None: out.append((t, result(ex, a, f, hint, k, False)))
        else: out += add_node(ex, t, a, f, hint, kp, mv, vp, ins)
    return Multi(out)
@c(M + r"operator\[\]\(%s(&&| const&)\)$" % STRT, "map::operator[]")
def map_index(ex, st, a, ins, f):
    mv = demangle(f.name).endswith("&&)"); s = sget(ex, st, a[1], ins); out = []
    for t, k in lookup(ex, st, a[0], Text(s.len, str_node(st, s)), ins):
        if k is not None: out.append((t, Ptr(k, MOFF)))
        else: out += [(u, Ptr(r.b, MOFF)) for u, r in add_node(ex, t, a, f, True, a[1], mv, None, ins)]
    return Multi(out)
@c(M + r"erase(\[abi:cxx11\])?\(std::_Rb_tree(_const)?_iterator<.*> >\)$", "map::erase(iterator)")
def map_erase(ex, st, a, ins, f):
    m = mget(ex, st, a[0], ins)
    if not isinstance(a[1], Ptr) or a[1].b not in m.known or a[1].o != 0: ex.require(st, False, "safety", "erase of an entry of this map", ins)
    return erase_node(ex, st, a[0], m, a[1].b, ins, Ptr(0, 0))
def erase_node(ex, st, p, m, k, ins, ret):
    t = key_text(ex, st, k)
    ex.store(st, p, 48, MapL(tuple(x for x in m.known if x != k), m.absent + ((t,) if m.open else ()), m.open, None, m.rest))
    return Multi([(s, ret) for s, _ in drop_node(ex, st, k, ins)])
@c(M + r"erase\(%s const&\)$" % STRT, "map::erase(key)")
def map_erase_key(ex, st, a, ins, f):
    s = sget(ex, st, a[1], ins); out = []
    for t, k in lookup(ex, st, a[0], Text(s.len, str_node(st, s)), ins):
        if k is None: out.append((t, 0))
        else: out += erase_node(ex, t, a[0], mget(ex, t, a[0], ins), k, ins, 1)
    return Multi(out)
@c(r"^bool std::operator(==|!=|<|>|<=|>=) ?<%s, rst::Value, std::less<void>, .*>\(%s const&, %s const&\)$" % (STRT, MT, MT), "comparison of maps of Values: element-wise / lexicographic on (key, Value)")
def map_cmp(ex, st, a, ins, f):
    u, v = mget(ex, st, a[0], ins), mget(ex, st, a[1], ins)
    if u.cid is None or v.cid is None: raise Unsupported("comparison of maps")
    order_facts(ex, st, (u.cid, v.cid), VEQ, VLT); return cmp_ids(demangle(f.name), bv(u.cid, 64), bv(v.cid, 64))

# ---------------------------------------------------------------- harness interface
@x("verif_live_payloads")
def live(ex, st, a, ins, f):
    """Strings, vectors and maps that are constructed and not yet destroyed."""
    n = st.ghost.get("payloads", 0)
    return add(n, sum(1 for b in st.mem.values() if b.kind == "strbuf" and b.alive))
@x("verif_remember")
def remember(ex, st, a, ins, f):
    """The content of a Value by identity (opaque Values only)."""
    v = vobj_at(ex, st, a[0])
    if v is None: raise Unsupported("content of a Value that is not opaque")
    return v.cid
@x("verif_remembered")
def remembered(ex, st, a, ins, f):
    v = vobj_at(ex, st, a[0])
    if v is None: return False
    return eq(v.cid, a[1])
@x("verif_any_array")
def any_array(ex, st, a, ins, f):
    """Any array: any number of opaque Values."""
    v = get_obj(ex, st, a[0], Vec, ins); name = cstring(ex, st, a[1])
    n = ex.sym(name + "_size", 64); ex.assume(st, z3.ULT(n, z3.BitVecVal(1 << 40, 64))); ex.nsym += 1
    e = z3.Function("%s_elems!%d" % (name, ex.nsym), B64, B64)
    b = ex.new_blk(st, "vecbuf", mul(n, VSIZE), "elements of " + name); b.arr = Elems(EFn(lambda i: e(bv(i, 64))))
    ex.store(st, a[0], 24, Vec(b.id, n, ex.sym(name + "_content", 64)))
@x("verif_any_object")
def any_object(ex, st, a, ins, f):
    """Any object: whether a text is a key of it is decided when it is asked for."""
    name = cstring(ex, st, a[1]); get_obj(ex, st, a[0], MapL, ins)
    n = ex.sym(name + "_size", 64); ex.assume(st, z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    ex.store(st, a[0], 48, MapL((), (), True, ex.sym(name + "_content", 64), n))
@x("verif_any_entries")
def any_entries(ex, st, a, ins, f):
    """Any object, to be iterated over."""
    name = cstring(ex, st, a[1]); get_obj(ex, st, a[0], MapL, ins); ex.nsym += 1
    n = ex.sym(name + "_size", 64); ex.assume(st, z3.ULT(n, z3.BitVecVal(1 << 40, 64)))
    k = z3.Function("%s_keys!%d" % (name, ex.nsym), B64, B64); v = z3.Function("%s_vals!%d" % (name, ex.nsym), B64, B64)
    b = ex.new_blk(st, "vecbuf", mul(n, NODE), "entries of " + name); b.arr = Nodes(EFn(lambda i: k(bv(i, 64))), EFn(lambda i: v(bv(i, 64))))
    ex.store(st, a[0], 48, MapS(b.id, n))
@x("verif_nth")
def nth(ex, st, a, ins, f):
    m = get_obj(ex, st, a[0], MapO, ins)
    if not isinstance(m, MapS): raise Unsupported("entry by position")
    ex.require(st, ult(a[1], m.n), "safety", "entry in range", ins); return Ptr(m.blk, add(mul(a[1], NODE), KOFF))
def lazy_opaque(ex, st, p): ex.store(st, p, VSIZE, VObj(ex.sym("content", 64)))
def setup(ex):
    ex.lazy_value = lazy_opaque

# ---------------------------------------------------------------- loops over arrays of any size
def copy_cands(cx):
    """At the focus index and at its end, a modified container holds what another one or its own entry content held."""
    out = []; st = cx.entry.st
    foci = [t[2] for t in st.ghost.get("inputs", ()) if t[0] == "i" and t[1].startswith("index")]
    arrs = [b.arr for b in st.mem.values() if b.arr is not None and b.alive]
    for v in cx.vars:
        if v.kind not in ("elems", "keys"): continue
        srcs = [a.k for a in arrs if isinstance(a, Nodes)] if v.kind == "keys" else [a.v if isinstance(a, Nodes) else a.e for a in arrs if isinstance(a, (Nodes, Elems))]
        ln = next((w for w in cx.vars if w.kind == "len" and w.key == v.key), None)
        if ln is None: continue
        def empty(get, ln=ln): return isc(get(ln)) and get(ln) == 0
        for n, e in enumerate(srcs):
            for k, j in enumerate(foci):
                out.append(("%s %d = source %d" % (v.kind, k, n), lambda get, it, v=v, ln=ln, j=j, e=e: z3.BoolVal(True) if empty(get, ln) else z3.Implies(z3.ULT(bv(j, 64), bv(get(ln), 64)), bv(eread(get(v), j), 64) == bv(eread(e, j), 64))))
            if v.kind == "keys":
                out.append(("last key = source %d" % n, lambda get, it, v=v, ln=ln, e=e: z3.BoolVal(True) if empty(get, ln) else z3.Implies(bv(get(ln), 64) != 0, bv(eread(get(v), sub(get(ln), 1)), 64) == bv(eread(e, sub(get(ln), 1)), 64))))
    return out
def size_bounds(cx):
    return [o[1].n for b in cx.entry.st.mem.values() for o in b.cells.values() if isinstance(o[1], (Vec, MapS)) and not isc(o[1].n)]
