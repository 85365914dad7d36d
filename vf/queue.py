"""Vectors and heaps of queued tasks, of any length: std::vector<T> for a struct T of one std::function<void()> and integers.

Elements are seen through two arbitrary but fixed tasks, the focus (told apart by the first word of the function's captured state):
whether they are in, where, and with which fields.  Any other element is some element with another task.
Heap algorithms are contracts over the real comparator, which is executed on arbitrary elements and shown to be a strict weak order."""
import re
from .stdc import *
from .lists import lin_div, index_of
from .loops import Var

FOC = ("id", "posted", "eligible", "done", "due", "iters", "runs")     # struct Focus of the harness, 8 bytes each

class Info:
    """Layout of an element type."""
    def __init__(self, name, ty):
        self.name = name; self.size = ty.size; self.fn = None; self.fields = []; self.ok = True
        def walk(t, off):
            if t.kind == "int": self.fields.append((off, (t.bits + 7) // 8)); return
            if t.kind == "struct":
                if t.name and "std::function" in t.name and t.size == 32:
                    if self.fn is not None: self.ok = False
                    self.fn = off; return
                if len(t.elems) == 1 and t.elems[0].kind == "int": return walk(t.elems[0], off)
                for e, o in zip(t.elems, t.offs): walk(e, off + o)
                return
            if t.kind == "array" and t.elem.kind == "int" and t.elem.bits == 8: return      # padding
            self.ok = False
        walk(ty, 0); self.ok = self.ok and self.fn is not None
def info(ex, name):
    t = ex.__dict__.setdefault("qinfo", {})
    if name not in t:
        t[name] = None; suffix = "." + name
        for f in ex.mod.fns.values():
            if f.decl or name.split("::")[-1] not in f.name: continue
            for b in ex.mod.blocks(f):
                for i in b.ins:
                    if i.op == "getelementptr" and getattr(i.x, "kind", None) == "struct" and (i.x.name or "").endswith(suffix):
                        n = Info(name, i.x)
                        if n.ok: t[name] = n
                        return t[name]
    return t[name]

class Elem:
    """One element: task id and fields."""
    __slots__ = ("id", "w")
    def __init__(self, id, w): self.id = id; self.w = tuple(w)
def eite(c, a, b, T): return Elem(ite(c, a.id, b.id, 64), [ite(c, x, y, 8 * n) for x, y, (_, n) in zip(a.w, b.w, T.fields)])
def fresh_elem(ex, T, nm="e"): return Elem(ex.sym(nm + "_task", 64), [ex.sym(nm + "_f%d" % o, 8 * n) for o, n in T.fields])

class QVec(Obj):
    """n elements; per focus X: inn[X], pos[X], w[X]; hp: it is a heap; hl: it is one but for the last element; sq: positions are known."""
    size = 24; whole = True
    __slots__ = ("T", "blk", "n", "inn", "pos", "w", "hp", "hl", "sq", "last", "front", "ver")
    F = ("n", "inn", "pos", "w", "hp", "hl", "sq", "last", "front", "ver")
    def __init__(self, T, blk, **k):
        self.T = T; self.blk = blk
        for f in self.F: setattr(self, f, k[f])
    def but(self, **k):
        d = {f: getattr(self, f) for f in self.F}; d["front"] = None; d["last"] = None; d.update(k)
        return QVec(self.T, self.blk, **d)
    def same(self, o): return isinstance(o, QVec) and self.T is o.T and self.blk == o.blk and all(same(getattr(self, f), getattr(o, f)) for f in ("n", "inn", "pos", "w", "hp", "hl", "sq", "ver")) and self.last is o.last and self.front is o.front
    def merge(self, c, o):
        if not isinstance(o, QVec) or o.T is not self.T or o.blk != self.blk: return None
        if self.front is not o.front or (self.last is None) != (o.last is None): return None
        b = lambda x, y: ite(c, x, y, 1); n = lambda x, y: ite(c, x, y, 64)
        return QVec(self.T, self.blk, n=n(self.n, o.n), inn=tuple(map(b, self.inn, o.inn)), pos=tuple(map(n, self.pos, o.pos)),
            w=tuple(tuple(ite(c, x, y, 8 * s) for x, y, (_, s) in zip(p, q, self.T.fields)) for p, q in zip(self.w, o.w)),
            hp=b(self.hp, o.hp), hl=b(self.hl, o.hl), sq=b(self.sq, o.sq), last=self.last if self.last is o.last else eite(c, self.last, o.last, self.T), front=self.front, ver=self.ver if same(self.ver, o.ver) else exe.CURRENT.sym("ver", 64))
    # fields a loop may change
    def parts(self):
        out = [("n", None, 64), ("hp", None, 1), ("hl", None, 1), ("sq", None, 1)]
        for X in (0, 1):
            out += [("inn", X, 1), ("pos", X, 64)] + [("w", (X, j), 8 * s) for j, (_, s) in enumerate(self.T.fields)]
        return out
    def part_of(self, p):
        f, i = p[0], p[1]; v = getattr(self, f)
        return v if i is None else v[i[0]][i[1]] if isinstance(i, tuple) else v[i]
    def with_part(self, p, val):
        f, i = p[0], p[1]
        if i is None: r = val
        elif isinstance(i, tuple): r = [list(x) for x in getattr(self, f)]; r[i[0]][i[1]] = val; r = tuple(map(tuple, r))
        else: r = list(getattr(self, f)); r[i] = val; r = tuple(r)
        return self.but(**{f: r})
    def settled(self, st):
        """No half-done change that the fields do not show."""
        if self.front is not None:
            b = st.mem.get(self.front[0])
            if b is not None and not intact(b, self): raise Unsupported("an element is changed in place")
        return self
    def havoc(self, ex, st, key):
        self.settled(st)
        new = self.but(ver=ex.sym("ver", 64)); out = []
        for p in self.parts():
            s = ex.sym("lv_" + p[0], p[2]); v = Var("len" if p[2] == 64 else "q", key, p[2], self.part_of(p), s); v.name = p
            v.obj = lambda ex, st, x, p=p: x.settled(st).part_of(p); out.append(v); new = new.with_part(p, s)
        new = new.but(ver=new.ver)
        st.pc.append(zb(inv(new))); return new, out
    def known(self): return inv(self)
    def resym(self, st, val, v):
        r = self.with_part(v.name, val)
        return r
def inv(q):
    """What holds of every such vector."""
    n = bv(q.n, 64); a = [z3.If(zb(i), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) for i in q.inn]
    out = [z3.ULE(a[0] + a[1], n), z3.ULE(n, z3.BitVecVal(1 << 40, 64))]
    for X in (0, 1): out.append(IMP(AND(q.inn[X], q.sq), z3.ULT(bv(q.pos[X], 64), n)))
    out.append(IMP(AND(q.inn[0], q.inn[1], q.sq), NOT(eq(q.pos[0], q.pos[1]))))
    out.append(IMP(q.hp, q.hl))
    return AND(*[zb(x) for x in out])
def intact(b, q):
    """The handed out first element is as it was (a moved-from function counts as changed)."""
    e = q.front[1]; T = q.T
    for (o, n), v in zip(T.fields, e.w):
        c = b.cells.get(o)
        if c is None or c[0] != n or not same(c[1], v): return False
    c = b.cells.get(T.fn + 16)
    return c is not None and isinstance(c[1], Ptr) and c[1].b != 0

# ---------------------------------------------------------------- access
RX = r"^(?:[\w:]+(?:<.*>)?(?: const)?[&*]? )?std::(?:vector|deque)<(rst::[\w:]+), std::allocator<rst::[\w:]+> >::"
def el(f): return re.search(r"std::(?:vector|deque)<(rst::[\w:]+), std::allocator<", demangle(f.name)).group(1)
def on(ex): return getattr(ex, "queues", False)
def q(pat, name):
    def d(g):
        def h(ex, st, a, ins, f):
            if not on(ex): return NotImplemented
            T = info(ex, el(f))
            if T is None: return NotImplemented
            if isinstance(a[0], Ptr) and isc(a[0].o) and a[0].b in st.mem:
                w = st.mem[a[0].b].cells.get(a[0].o)
                if w is not None and isinstance(w[1], Ptr): return NotImplemented      # see emplace_back
            return g(ex, st, a, ins, f, T)
        c(RX + pat, name)(h); return g
    return d
def get(ex, st, p, ins):
    r = get_obj(ex, st, p, QVec, ins); note(ex, st, p, False, ins); return r
def note(ex, st, p, write, ins):
    if ex.on_access is not None: ex.on_access(ex, st, p, 24, write, False, ins)
def put(ex, st, p, v, ins):
    note(ex, st, p, True, ins); put_obj(ex, st, p, v, ins); st.pc.append(zb(inv(v)))
def new(ex, st, p, T, ins):
    b = ex.new_blk(st, "vecbuf", 1 << 50, "task queue"); b.arr = Content(T); z = lambda s: z3.BitVecVal(0, s)
    w = tuple(tuple(ex.sym("w", 8 * s) for _, s in T.fields) for X in (0, 1))
    put(ex, st, p, QVec(T, b.id, n=0, inn=(False, False), pos=(ex.sym("pos", 64), ex.sym("pos", 64)), w=w, hp=True, hl=True, sq=True, last=None, front=None, ver=0), ins)
def owner(ex, st, blk):
    for b in st.mem.values():
        for o, (n, v) in b.cells.items():
            if isinstance(v, QVec) and v.blk == blk: return v
    return None
def focus(ex, st):
    p = st.ghost.get("qfocus")
    if p is None: raise Unsupported("task queue before verif_queue")
    return p
def fid(ex, st, X):
    p = focus(ex, st); v = ex.load(st, Ptr(p.b, p.o + X * 8 * len(FOC)), 8, "i")
    if not isinstance(v, (int, z3.BitVecRef)): raise Unsupported("focus %r %r" % (v, st.mem[p.b].cells))
    return bv(v, 64)
def words(ex, st): return st.ghost["qwords"]
def at(ex, st, q, k):
    """The element at position k."""
    m = ex.__dict__.setdefault("qmemo", {}); key = (q.blk, str(q.ver), bv(k, 64).get_id()); e = m.get(key)
    if e is None: e = m[key] = (fresh_elem(ex, q.T), k); 
    e = e[0]
    for X in (0, 1):
        st.pc.append(z3.Not(e.id == fid(ex, st, X)))
    for X in (0, 1):
        e = eite(AND(q.inn[X], eq(q.pos[X], k)), Elem(fid(ex, st, X), q.w[X]), e, q.T)
    return e
class Content:
    """The elements in memory, read only."""
    def __init__(self, T): self.T = T
    def same(self, o): return self is o
    def read(self, ex, st, b, o, n, want):
        q = owner(ex, st, b.id); T = self.T
        if q is None: raise Unsupported("read of a vector that is gone")
        if ex.on_access is not None: ex.on_access(ex, st, next(Ptr(x.id, y) for x in st.mem.values() for y, (_, v) in x.cells.items() if v is q), 24, False, False, None)
        if not z3.is_true(zb(q.sq)):
            from .loops import valid
            if not valid(ex, st.pc, q.sq): raise Unsupported("elements of a heap are read by position")
        offs = [T.fn, T.fn + 16, T.fn + 24] + [x for x, _ in T.fields]
        for exact in (True, False):
            for r in offs:
                d = sub(o, r)
                if not isc(d): d = fold(d)
                k = lin_div(d, T.size)
                if k is None:
                    if exact or (not isc(d) and z3.is_app_of(d, z3.Z3_OP_BADD) and any(z3.is_bv_value(x) for x in d.children())) or isc(d): continue
                    k = index_of(ex, st, d, T.size, None, q.n)
                if isc(k) and k >= 1 << 40: continue
                ex.require(st, ult(k, q.n), "safety", "element index in range")
                e = at(ex, st, q, k); st.ghost["qlast"] = bv(k, 64); mgr, inv_ = words(ex, st)
                if n != 8 and r in (T.fn, T.fn + 16, T.fn + 24): raise Unsupported("raw read of a function")
                if r == T.fn: return e.id
                if r == T.fn + 16: return mgr
                if r == T.fn + 24: return inv_
                for (x, s), v in zip(T.fields, e.w):
                    if x == r and s == n: return v
        raise Unsupported("read of a part of a queued task")
    def write(self, ex, st, b, o, n, v): raise Unsupported("write of a queued task in place")
    def content(self, ex, st, b, start, n): raise Unsupported("raw copy of queued tasks")

class NoLook(Content):
    def __init__(self): pass
    def read(self, ex, st, b, o, n, want): raise Unsupported("use of the reference to an appended element")
    def write(self, ex, st, b, o, n, v): raise Unsupported("use of the reference to an appended element")
NOLOOK = NoLook()
def write_elem(ex, st, p, e, T):
    """Real memory with the content of element e."""
    mgr, inv_ = words(ex, st)
    ex.store(st, Ptr(p.b, p.o + T.fn), 8, e.id); ex.store(st, Ptr(p.b, p.o + T.fn + 16), 8, mgr); ex.store(st, Ptr(p.b, p.o + T.fn + 24), 8, inv_)
    for (o, n), v in zip(T.fields, e.w): ex.store(st, Ptr(p.b, p.o + o), n, v)
def read_elem(ex, st, p, T):
    mgr = ex.load(st, Ptr(p.b, p.o + T.fn + 16), 8, "p"); m, i = words(ex, st)
    if not (isinstance(mgr, Ptr) and mgr == m): raise Unsupported("a queued function is not one of the posted tasks")
    id = ex.load(st, Ptr(p.b, p.o + T.fn), 8, "i")
    if isinstance(id, MaybeUndef): id = ex.define(st, id)
    w = [ex.load(st, Ptr(p.b, p.o + o), n, "i") for o, n in T.fields]
    w = [ex.define(st, x) if isinstance(x, MaybeUndef) else x for x in w]
    if id is UNDEF or any(x is UNDEF or not isinstance(x, (int, z3.BitVecRef)) for x in w): raise Unsupported("a queued element is not initialised")
    return Elem(bv(id, 64), [bv(x, 8 * n) for x, (_, n) in zip(w, T.fields)])
def drop_front(st, q, popped=False):
    if q.front is None: return
    b = st.mem.get(q.front[0])
    if not popped and b is not None and b.alive and not intact(b, q): raise Unsupported("an element is changed in place")
    if b is not None: st.wblk(b.id).alive = False

# ---------------------------------------------------------------- contracts
@q(r"(vector|deque)\(\)$", "std::vector<task>()")
def ctor(ex, st, a, ins, f, T): new(ex, st, a[0], T, ins)
@q(r"~(vector|deque)\(\)$", "~vector<task>")
def dtor(ex, st, a, ins, f, T): v = kill_obj(ex, st, a[0], QVec, ins); drop_front(st, v, True); st.wblk(v.blk).alive = False
@q(r"(empty|size)\(\) const$", "vector<task>::empty/size")
def size(ex, st, a, ins, f, T):
    v = get(ex, st, a[0], ins)
    return v.n if "size()" in demangle(f.name) else eq(v.n, 0)
@q(r"(reserve|shrink_to_fit)\((unsigned long)?\)$", "vector<task>::reserve")
def reserve(ex, st, a, ins, f, T): v = get(ex, st, a[0], ins); drop_front(st, v); put(ex, st, a[0], v.but(), ins)
@q(r"clear\(\)$", "vector<task>::clear")
def clear(ex, st, a, ins, f, T): v = get(ex, st, a[0], ins); drop_front(st, v, True); put(ex, st, a[0], v.but(n=0, inn=(False, False), hp=True, hl=True, sq=True), ins)
def insert(ex, st, p, e, ins):
    v = get(ex, st, p, ins); drop_front(st, v); inn, pos, w = list(v.inn), list(v.pos), list(v.w); T = v.T
    for X in (0, 1):
        isx = e.id == fid(ex, st, X)
        ex.require(st, NOT(AND(v.inn[X], isx)), "post", "a task is queued at most once", ins)
        inn[X] = OR(v.inn[X], isx); pos[X] = ite(isx, v.n, pos[X], 64); w[X] = tuple(ite(isx, x, y, 8 * n) for x, y, (_, n) in zip(e.w, w[X], T.fields))
    put(ex, st, p, v.but(n=add(v.n, 1), inn=tuple(inn), pos=tuple(pos), w=tuple(w), hp=fold(zb(eq(v.n, 0))), hl=v.hp, last=e), ins)
@q(r"(emplace_back<.*|push_back\(.*&&\)$)", "vector<task>::emplace_back/push_back")
def emplace_back(ex, st, a, ins, f, T):
    """The real body runs on a vector with room for one element; the result is appended."""
    b = ex.new_blk(st, "tmp", T.size, "new element"); v = ex.new_blk(st, "tmp", 24, "vector with room")
    for o, x in ((0, 0), (8, 0), (16, T.size)): ex.store(st, Ptr(v.id, o), 8, Ptr(b.id, x))
    out = []
    for s, _ in ex.run_fn(st, f, [Ptr(v.id, 0)] + list(a[1:])):
        e = read_elem(ex, s, Ptr(b.id, 0), T); s.wblk(b.id).alive = False; s.wblk(v.id).alive = False
        insert(ex, s, a[0], e, ins); nb = ex.new_blk(s, "heap", T.size, "appended element"); nb.arr = NOLOOK
        out.append((s, Ptr(nb.id, 0) if "emplace" in demangle(f.name) else None))
    return Multi(out)
def the_front(ex, st, p, ins):
    """Materialises the first element. -> (vector, its block)"""
    v = get(ex, st, p, ins)
    ex.require(st, NOT(eq(v.n, 0)), "safety", "first element of a non-empty vector", ins)
    if v.front is not None and st.mem[v.front[0]].alive:
        drop = st.mem[v.front[0]]
        if v.last is v.front[1]: raise Unsupported("first element after the last")
        if not intact(drop, v): raise Unsupported("an element is changed in place")
        return v, v.front
    T = v.T; e = fresh_elem(ex, T, "first"); isx = [ex.sym("is_first", 1) for X in (0, 1)]; fs = []
    for X in (0, 1):
        fs += [z3.Implies(isx[X], zb(v.inn[X])), z3.Implies(zb(v.sq), isx[X] == zb(AND(v.inn[X], eq(v.pos[X], 0)))), z3.Not(e.id == fid(ex, st, X))]
    one = lambda c: z3.If(zb(c), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    fs += [z3.Not(z3.And(*isx)), z3.Implies(z3.Not(z3.Or(*isx)), z3.ULT(one(v.inn[0]) + one(v.inn[1]), bv(v.n, 64)))]
    for X in (0, 1): e = eite(isx[X], Elem(fid(ex, st, X), v.w[X]), e, T)
    cmp = order(ex, st, T, None, ins)
    if cmp is not None:
        for X in (0, 1): fs.append(z3.Implies(z3.And(zb(v.hp), zb(v.inn[X])), z3.Not(cmp(e, Elem(fid(ex, st, X), v.w[X])))))
    st.pc.extend(fs)
    b = ex.new_blk(st, "vecbuf", T.size, "first element"); write_elem(ex, st, Ptr(b.id, 0), e, T)
    nv = v.but(front=(b.id, e)); put_obj(ex, st, p, nv, ins)
    return nv, nv.front
@q(r"front\(\)( const)?$", "vector<task>::front")
def front(ex, st, a, ins, f, T): return Ptr(the_front(ex, st, a[0], ins)[1][0], 0)
@q(r"back\(\)( const)?$", "vector<task>::back")
def back(ex, st, a, ins, f, T):
    v = get(ex, st, a[0], ins); ex.require(st, NOT(eq(v.n, 0)), "safety", "last element of a non-empty vector", ins)
    if v.last is None: raise Unsupported("last element of a queue")
    if v.front is not None and st.mem[v.front[0]].alive:
        if v.front[1] is v.last: return Ptr(v.front[0], 0)
        drop_front(st, v)
    b = ex.new_blk(st, "vecbuf", v.T.size, "last element"); write_elem(ex, st, Ptr(b.id, 0), v.last, v.T)
    put_obj(ex, st, a[0], v.but(front=(b.id, v.last), last=v.last), ins); return Ptr(b.id, 0)
@q(r"(c?begin|data)\(\)( const)?$", "vector<task>::begin")
def begin(ex, st, a, ins, f, T): return Ptr(get(ex, st, a[0], ins).blk, 0)
@q(r"c?end\(\)( const)?$", "vector<task>::end")
def end(ex, st, a, ins, f, T): v = get(ex, st, a[0], ins); return Ptr(v.blk, mul(v.n, T.size))
@q(r"operator\[\]\(unsigned long\)( const)?$", "vector<task>::operator[]")
def index(ex, st, a, ins, f, T):
    v = get(ex, st, a[0], ins); ex.require(st, ult(a[1], v.n), "safety", "element index in range", ins)
    return Ptr(v.blk, mul(a[1], T.size))
@q(r"pop_back\(\)$", "vector<task>::pop_back")
def pop_back(ex, st, a, ins, f, T):
    v = get(ex, st, a[0], ins); ex.require(st, NOT(eq(v.n, 0)), "safety", "pop_back of a non-empty vector", ins)
    drop_front(st, v, True)
    if v.last is None:
        if z3.is_true(z3.simplify(zb(v.sq))):
            k = sub(v.n, 1); e = at(ex, st, v, k)
        else: raise Unsupported("pop_back of an unknown element")
    else: e = v.last
    put(ex, st, a[0], v.but(n=sub(v.n, 1), inn=tuple(AND(i, NOT(e.id == fid(ex, st, X))) for X, i in enumerate(v.inn)), hp=v.hl, hl=v.hl), ins)
@q(r"swap\(", "vector<task>::swap")
def swap(ex, st, a, ins, f, T):
    v, w = get(ex, st, a[0], ins), get(ex, st, a[1], ins); drop_front(st, v); drop_front(st, w)
    def mv(x, to): return QVec(x.T, to.blk, **dict({g: getattr(x, g) for g in QVec.F}, front=None, ver=ex.sym("ver", 64)))
    put(ex, st, a[0], mv(w, v), ins); put(ex, st, a[1], mv(v, w), ins)
@q(r"(vector|deque)\(std::(vector|deque)<.*&&\)$", "vector<task>(vector&&)")
def move_ctor(ex, st, a, ins, f, T):
    w = get(ex, st, a[1], ins); drop_front(st, w); new(ex, st, a[0], T, ins); swap.__wrapped__ if False else None
    v = get(ex, st, a[0], ins)
    put(ex, st, a[0], QVec(T, v.blk, **dict({g: getattr(w, g) for g in QVec.F}, front=None, ver=ex.sym("ver", 64))), ins)
    put(ex, st, a[1], w.but(n=0, inn=(False, False), hp=True, hl=True, sq=True), ins)

# ---------------------------------------------------------------- heap algorithms
def order(ex, st, T, f, ins):
    """The comparator of the heap algorithms on elements of T, as a formula; shown once to be a strict weak order.  f: the algorithm called."""
    tab = ex.__dict__.setdefault("qorder", {})
    if f is None:
        if T.name in tab: return tab[T.name][1]
        # the comparator the program uses for this element type
        fs = [g for g in ex.mod.fns.values() if not g.decl and re.search(r"__gnu_cxx::__ops::_Iter_comp_iter<.*>::operator\(\)<__gnu_cxx::__normal_iterator<%s\*" % re.escape(T.name), demangle(g.name))]
        names = {re.search(r"_Iter_comp_iter<(.*?)>::operator\(\)<__gnu", demangle(g.name)).group(1) for g in fs}
        if len(names) != 1: return None
        return template(ex, st, T, fs[0], names.pop(), ins)
    d = demangle(f.name); m = re.search(r"std::(?:push|pop|make)_heap<__gnu_cxx::__normal_iterator<.*? >, (.*?)>\(", d)
    if not m: raise Unsupported("heap algorithm without a comparator")
    name = m.group(1).strip()
    if name in tab: return tab[name][1]
    g = [x for x in ex.mod.fns.values() if not x.decl and re.search(r"__gnu_cxx::__ops::_Iter_comp_(iter|val)<%s ?>::operator\(\)<__gnu_cxx::__normal_iterator<%s\*" % (re.escape(name), re.escape(T.name)), demangle(x.name))]
    if not g: raise Unsupported("comparator " + name)
    return template(ex, st, T, g[0], name, ins)
def template(ex, st, T, g, name, ins):
    tab = ex.qorder
    if len(g.ty.params) != 3: raise Unsupported("comparator with state")
    s0 = st.fork(); A, B = fresh_elem(ex, T, "a"), fresh_elem(ex, T, "b"); ps = []
    for e in (A, B):
        b = ex.new_blk(s0, "tmp", T.size, "compared"); write_elem(ex, s0, Ptr(b.id, 0), e, T); ps.append(Ptr(b.id, 0))
    th = ex.new_blk(s0, "tmp", 8, "comparator"); base = len(s0.pc); sh = s0.ghost.get("shared"); s0.ghost["shared"] = ()
    ex.discover += 1; rs = []
    try: rs = ex.run_fn(s0, g, [Ptr(th.id, 0)] + ps)
    finally: ex.discover -= 1
    def res(v):
        if isinstance(v, MaybeUndef): raise Unsupported("comparator")
        return zb(tobool(v)) if isinstance(v, (int, z3.BoolRef)) else v != 0
    body = z3.simplify(z3.Or([z3.And([zb(x) for x in s.pc[base:]] + [res(v)]) for s, v in rs])) if rs else z3.BoolVal(False)
    def cmp(x, y): return z3.substitute(body, *[(a, b) for a, b in zip((A.id,) + A.w + (B.id,) + B.w, (x.id,) + x.w + (y.id,) + y.w)])
    if not ex.discover:
        C_ = fresh_elem(ex, T, "c")
        for lab, goal in (("the order of the queue is irreflexive", z3.Not(cmp(A, A))),
                          ("the order of the queue is transitive", z3.Implies(z3.And(cmp(A, B), cmp(B, C_)), cmp(A, C_))),
                          ("elements of equal rank in the queue are interchangeable", z3.Implies(z3.And(*[z3.Not(cmp(p, q_)) for p, q_ in ((A, B), (B, A), (B, C_), (C_, B))]), z3.And(z3.Not(cmp(A, C_)), z3.Not(cmp(C_, A)))))):
            ex.require(st.fork(), goal, "heap", lab, ins)
        if T.name in tab and tab[T.name][0] != name:
            ex.require(st.fork(), cmp(A, B) == tab[T.name][1](A, B), "heap", "one order for all operations on a queue", ins)
        tab[name] = tab.setdefault(T.name, (name, cmp)); tab[name] = (name, cmp)
    return cmp
def range_of(ex, st, a, ins, f):
    """The vector whose whole range is given."""
    m = re.search(r"_heap<__gnu_cxx::__normal_iterator<(rst::[\w:]+)\*", demangle(f.name))
    if not on(ex) or not m or info(ex, m.group(1)) is None: return None
    x, y = a[0], a[1]
    for b in st.mem.values():
        for o, (n, v) in b.cells.items():
            if isinstance(v, QVec) and isinstance(x, Ptr) and v.blk == x.b:
                ex.require(st, AND(eq(x.o, 0), isinstance(y, Ptr) and y.b == x.b and eq(y.o, mul(v.n, v.T.size))), "heap", "the algorithm is given the whole queue", ins)
                return Ptr(b.id, o), v
    raise Unsupported("heap algorithm on something else")
@c(r"^void std::push_heap<__gnu_cxx::__normal_iterator<rst::", "std::push_heap")
def push_heap(ex, st, a, ins, f):
    r = range_of(ex, st, a, ins, f)
    if r is None: return NotImplemented
    p, v = r; drop_front(st, v); order(ex, st, v.T, f, ins)
    ex.require(st, v.hl, "heap", "the queue but for the new element is a heap", ins)
    put(ex, st, p, v.but(hp=True, hl=True, sq=fold(zb(AND(v.sq, ule(v.n, 1)))), ver=ex.sym("ver", 64)), ins)
@c(r"^void std::make_heap<__gnu_cxx::__normal_iterator<rst::", "std::make_heap")
def make_heap(ex, st, a, ins, f):
    r = range_of(ex, st, a, ins, f)
    if r is None: return NotImplemented
    p, v = r; drop_front(st, v); order(ex, st, v.T, f, ins)
    put(ex, st, p, v.but(hp=True, hl=True, sq=fold(zb(AND(v.sq, ule(v.n, 1)))), ver=ex.sym("ver", 64)), ins)
@c(r"^void std::pop_heap<__gnu_cxx::__normal_iterator<rst::", "std::pop_heap")
def pop_heap(ex, st, a, ins, f):
    r = range_of(ex, st, a, ins, f)
    if r is None: return NotImplemented
    p, v = r; order(ex, st, v.T, f, ins)
    ex.require(st, NOT(eq(v.n, 0)), "heap", "pop_heap of a non-empty queue", ins)
    ex.require(st, v.hp, "heap", "the queue is a heap", ins)
    if v.front is None or not st.mem[v.front[0]].alive: v, _ = the_front(ex, st, p, ins)
    e = v.front[1]
    b = st.mem[v.front[0]]
    for (o, n), w in zip(v.T.fields, e.w):
        if not same(b.cells.get(o, (0, None))[1], w): raise Unsupported("an element is changed in place")
    drop_front(st, v, True)
    put(ex, st, p, v.but(hp=fold(zb(eq(v.n, 1))), hl=True, sq=fold(zb(AND(v.sq, ule(v.n, 1)))), last=e, ver=ex.sym("ver", 64)), ins)

# ---------------------------------------------------------------- harness interface
@x("verif_queue")
def verif_queue(ex, st, a, ins, f):
    """focus array, a sample task (its code is that of every posted task), the clock."""
    ex.queues = True; ex.fresh_after = 0.2; st.ghost["qfocus"] = a[0]; st.ghost["qclock"] = a[2]
    st.ghost["qwords"] = (ex.load(st, Ptr(a[1].b, a[1].o + 16), 8, "p"), ex.load(st, Ptr(a[1].b, a[1].o + 24), 8, "p")); st.ghost["qlast"] = z3.BitVecVal(0, 64)

@x("verif_ite")
def verif_ite(ex, st, a, ins, f): return ite(a[0], a[1], a[2], 64)
@x("verif_posting")
def posting(ex, st, a, ins, f):
    """1 / 0: a call of Post begins / ends; other threads may do the same at any time."""
    b = st.ghost["qbase"].blk
    if not hasattr(ex, "qraces"): ex.qraces = {}; ex.at_end.append(race_report); ex.on_access = lambda *a: on_access(b, *a)
    st.ghost["posting"] = a[0]
@x("verif_alone")
def alone(ex, st, a, ins, f): st.ghost.pop("posting", None)
def on_access(b, ex, st, p, n, write, atomic, ins):
    if p.b != b or ex.discover or "posting" not in st.ghost: return
    from .threads import held
    locks = frozenset((k[1], k[2]) for k in held(st))
    for o in range(p.o, p.o + n) if isc(p.o) else range(st.mem[b].size):
        c = ex.qraces.setdefault(o, {"locks": locks, "w": False, "na": False, "post": False, "where": ex.where(ins)})
        if not atomic: c["locks"] &= locks
        c["w"] |= write; c["na"] |= not atomic; c["post"] |= st.ghost["posting"] == 1
        if not locks and not atomic: c["where"] = ex.where(ins)
def race_report(ex):
    bad = sorted({c["where"] for c in ex.qraces.values() if c["w"] and c["na"] and c["post"] and not c["locks"]})
    ex.note_obligation("race", "no data race: what a post uses and anything changes is guarded by one mutex or atomic", "; ".join(bad) if bad else "all members", not bad)
def b64(x):
    if isinstance(x, (bool, z3.BoolRef)): return z3.If(zb(x), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if not isinstance(x, (int, z3.BitVecRef)): raise Unsupported("ghost state of the harness")
    return bv(x, 64)
def elems_at_hand(cx, V):
    """Positions of elements of V that locals refer to at the loop's entry."""
    st = cx.entry.st; out = [st.ghost.get("qlast")]
    for b in cx.entry.allocas:
        for o, (n, v) in sorted(st.mem[b].cells.items(), key=str) if b in st.mem else ():
            if isinstance(v, Ptr) and v.b == V.blk:
                k = lin_div(v.o, V.T.size)
                if k is not None: out.append(bv(k, 64))
    seen = set(); return [k for k in out if not (k.get_id() in seen or seen.add(k.get_id()))]
def qcands(cx):
    """Invariants about the queues."""
    ex, st = cx.ex, cx.st; fp = st.ghost.get("qfocus"); out = []
    if fp is None: return out
    fv = {v.key[1:3]: v for v in cx.vars if v.key[0] == "C" and v.kind == "int"}
    def cell(p):
        """-> get |-> the 8-byte integer at p"""
        v = fv.get((p.b, p.o))
        if v is not None: return lambda get: b64(get(v))
        x = st.mem[p.b].cells.get(p.o); x = b64(ex.load(st, p, 8, "i") if x is None else x[1])
        return lambda get: x
    def foc(X, nm): return cell(Ptr(fp.b, fp.o + 8 * (len(FOC) * X + FOC.index(nm))))
    clock = cell(st.ghost["qclock"])
    ids = [foc(X, "id") for X in (0, 1)]; G = {(X, nm): foc(X, nm) for X in (0, 1) for nm in FOC}
    Q = []
    for b in st.mem.values():
        if not b.alive: continue
        for o, (n, v) in sorted(b.cells.items()):
            if isinstance(v, QVec):
                vs = {x.name: x for x in cx.vars if x.key[0] == "C" and x.key[1:3] == (b.id, o)}
                def fld(get, p, v=v, vs=vs): return get(vs[p]) if p in vs else v.part_of(p)
                def old(p, v=v, vs=vs): return vs[p].entry if p in vs else v.part_of(p)
                Q.append((v, fld, old, bool(vs)))
    ints = [v for v in cx.vars if v.kind == "int" and v.bits == 64 and (v.key[0] != "C" or v.key[1] != fp.b)]
    for i, v in enumerate(ints):
        for w in ints[i + 1:]: out.append(("%r - %r unchanged" % (v, w), lambda get, it, v=v, w=w: bv(get(v), 64) - bv(get(w), 64) == bv(v.entry, 64) - bv(w.entry, 64)))
    T = lambda c: zb(c)
    for a, (V, fld, old, mod) in enumerate(Q):
        P = {(p[0], p[1]): p for p in V.parts()}; F = lambda get, f, i=None, fld=fld, P=P: fld(get, P[(f, i)])
        inn = lambda get, X, F=F: T(F(get, "inn", X))
        for fl in ("hp", "sq"):
            out.append(("%d.%s" % (a, fl), lambda get, it, F=F, fl=fl: T(F(get, fl))))
        for X in (0, 1):
            p_in = P[("inn", X)]
            g = lambda nm, X=X: G[(X, nm)]
            out.append(("%d: task %d queued iff waiting" % (a, X), lambda get, it, inn=inn, X=X, g=g: inn(get, X) == z3.And(g("posted")(get) != 0, g("done")(get) == 0, g("eligible")(get) == 0)))
            out.append(("%d: task %d not in" % (a, X), lambda get, it, inn=inn, X=X: z3.Not(inn(get, X))))
            out.append(("%d: task %d pending iff eligible" % (a, X), lambda get, it, inn=inn, X=X, g=g: inn(get, X) == (g("eligible")(get) != 0)))
            out.append(("%d: task %d in as before" % (a, X), lambda get, it, inn=inn, X=X, e=old(p_in): inn(get, X) == T(e)))
            out.append(("%d: task %d in is posted" % (a, X), lambda get, it, inn=inn, X=X, g=g: z3.Implies(inn(get, X), g("posted")(get) != 0)))
            out.append(("%d: task %d in is due" % (a, X), lambda get, it, inn=inn, X=X, g=g: z3.Implies(inn(get, X), g("due")(get) <= clock(get))))
            out.append(("%d: task %d in is eligible" % (a, X), lambda get, it, inn=inn, X=X, g=g: z3.Implies(inn(get, X), g("eligible")(get) != 0)))
            for j, (_, s) in enumerate(V.T.fields):
                if s != 8: continue
                w = lambda get, F=F, X=X, j=j: bv(F(get, "w", (X, j)), 64)
                for nm in ("due", "iters"):
                    out.append(("%d: field %d of task %d is %s" % (a, j, X, nm), lambda get, it, inn=inn, X=X, w=w, g=g, nm=nm: z3.Implies(inn(get, X), w(get) == g(nm)(get))))
                for v in ints:
                    out.append(("%d: field %d of task %d below %r" % (a, j, X, v), lambda get, it, inn=inn, X=X, w=w, v=v: z3.Implies(inn(get, X), z3.ULT(w(get), bv(get(v), 64)))))
                # executed so far
                out.append(("%d: runs of task %d follow its position (%d)" % (a, X, j), lambda get, it, inn=inn, X=X, w=w, g=g, F=F: g("runs")(get) == z3.If(z3.And(inn(get, X), z3.ULT(bv(F(get, "pos", X), 64), it)), w(get) + 1, z3.BitVecVal(0, 64))))
            for ek in elems_at_hand(cx, V):
                for j, (_, s) in enumerate(V.T.fields):
                    if s != 8: continue
                    out.append(("%d: at most as many iterations as task %d's field %d" % (a, X, j), lambda get, it, inn=inn, X=X, F=F, ek=ek, j=j: z3.Implies(z3.And(inn(get, X), bv(F(get, "pos", X), 64) == ek), z3.Or(it == 0, z3.ULE(it - 1, bv(F(get, "w", (X, j)), 64))))))
                    out.append(("%d: no more iterations than task %d's field %d" % (a, X, j), lambda get, it, inn=inn, X=X, F=F, ek=ek, j=j: z3.Implies(z3.And(inn(get, X), bv(F(get, "pos", X), 64) == ek), z3.ULE(it, bv(F(get, "w", (X, j)), 64)))))
            rv = fv.get((fp.b, fp.o + 8 * (len(FOC) * X + FOC.index("runs"))))
            if rv is not None:
                for ek in elems_at_hand(cx, V): out.append(("%d: runs of task %d are this element's" % (a, X), lambda get, it, inn=inn, X=X, F=F, rv=rv, ek=ek: bv(get(rv), 64) == bv(rv.entry, 64) + z3.If(z3.And(inn(get, X), bv(F(get, "pos", X), 64) == ek), it, z3.BitVecVal(0, 64))))
        for j, (_, s) in enumerate(V.T.fields):
            if s != 8: continue
            out.append(("%d: field %d in posting order" % (a, j), lambda get, it, inn=inn, F=F, j=j: z3.Implies(z3.And(inn(get, 0), inn(get, 1)), z3.ULT(bv(F(get, "w", (0, j)), 64), bv(F(get, "w", (1, j)), 64)) == z3.ULT(ids[0](get), ids[1](get)))))
            out.append(("%d: field %d distinct" % (a, j), lambda get, it, inn=inn, F=F, j=j: z3.Implies(z3.And(inn(get, 0), inn(get, 1)), bv(F(get, "w", (0, j)), 64) != bv(F(get, "w", (1, j)), 64))))
        out.append(("%d: task 0 before task 1" % a, lambda get, it, inn=inn, F=F: z3.Implies(z3.And(inn(get, 0), inn(get, 1)), z3.ULT(bv(F(get, "pos", 0), 64), bv(F(get, "pos", 1), 64)))))
        for c_, (W, fld2, old2, mod2) in enumerate(Q):
            if c_ == a or not (mod or mod2): continue
            inn2 = lambda get, X, fld2=fld2, W=W: T(fld2(get, ("inn", X, 1)))
            out.append(("%d,%d: 1 not here while 0 there" % (a, c_), lambda get, it, inn=inn, inn2=inn2: z3.Not(z3.And(inn(get, 1), inn2(get, 0)))))
            if c_ > a:
                for X in (0, 1):
                    e = z3.Or(T(old(("inn", X, 1))), T(old2(("inn", X, 1))))
                    out.append(("%d,%d: task %d in one of them as before" % (a, c_, X), lambda get, it, inn=inn, inn2=inn2, X=X, e=e: z3.And(z3.Or(inn(get, X), inn2(get, X)) == e, z3.Not(z3.And(inn(get, X), inn2(get, X))))))
    for N in queue_bounds(cx):
        if isinstance(N, z3.BitVecRef): out.append(("it <= bound + 1", lambda get, it, N=N: z3.Or(it == 0, z3.ULE(it - 1, N))))
    for X in (0, 1):
        g = lambda nm, X=X: G[(X, nm)]
        for v in ints:
            out.append(("task %d posted iff below %r" % (X, v), lambda get, it, g=g, v=v, X=X: (g("posted")(get) != 0) == z3.ULT(ids[X](get), bv(get(v), 64))))
        out.append(("task %d done is posted" % X, lambda get, it, g=g: z3.Implies(g("done")(get) != 0, g("posted")(get) != 0)))
        out.append(("task %d eligible is posted" % X, lambda get, it, g=g: z3.Implies(g("eligible")(get) != 0, g("posted")(get) != 0)))
    before = lambda get: z3.Implies(z3.And(G[(0, "posted")](get) != 0, G[(1, "posted")](get) != 0), z3.Or(G[(0, "due")](get) < G[(1, "due")](get), z3.And(G[(0, "due")](get) == G[(1, "due")](get), z3.ULT(ids[0](get), ids[1](get)))))
    out.append(("task 0 is to run before task 1", lambda get, it: before(get)))
    return out

# ---------------------------------------------------------------- the object that owns the queue: its state between two calls
# Which members hold the state is found by watching one real post: the queue is the vector that grew, the counter the
# integer that changed, and the roles of the element's fields follow from their values.
@x("verif_queue_before")
def queue_before(ex, st, a, ins, f): b = st.mem[a[0].b]; st.ghost["qbase"] = QState(b.id, dict(b.cells), b.regs)
class QState(Obj):
    def __init__(self, blk, cells, regs, queue=None, counter=None, roles=None): self.blk = blk; self.cells = cells; self.regs = regs; self.queue = queue; self.counter = counter; self.roles = roles
def changed(st, s):
    b = st.mem[s.blk]; out = []
    if len(b.regs) != len(s.regs) or any(x[2] is not y[2] for x, y in zip(b.regs, s.regs)): raise Unsupported("other state of the task runner changes")
    for o in sorted(b.cells.keys() | s.cells.keys()):
        x, y = b.cells.get(o), s.cells.get(o)
        if x is None or y is None or x[0] != y[0]: raise Unsupported("other state of the task runner changes")
        if isinstance(x[1], QVec) and isinstance(y[1], QVec) and same(x[1].n, y[1].n) and isc(x[1].n) and x[1].n == 0: continue
        if not same(x[1], y[1]): out.append(o)
    return out
@x("verif_queue_learn")
def queue_learn(ex, st, a, ins, f):
    """The object has just been given the task with focus 0's id, due time a[1] and a[2] more iterations."""
    from .loops import valid
    s = st.ghost["qbase"]; b = st.mem[s.blk]; qs = []; cs = []
    for o in changed(st, s):
        v = b.cells[o][1]
        if isinstance(v, QVec): qs.append(o)
        elif b.cells[o][0] == 8 and isinstance(v, (int, z3.BitVecRef)): cs.append(o)
        else: raise Unsupported("other state of the task runner changes")
    if len(qs) != 1 or len(cs) != 1: raise Unsupported("state of the task runner")
    q = b.cells[qs[0]][1]; roles = {}
    for j, (_, n) in enumerate(q.T.fields):
        if n != 8: raise Unsupported("state of the task runner")
        w = bv(q.w[0][j], 64)
        for nm, val in (("due", a[1]), ("iters", a[2]), ("seq", s.cells[cs[0]][1])):
            if nm not in roles and isinstance(val, (int, z3.BitVecRef)) and valid(ex, st.pc, w == bv(val, 64)): roles[nm] = j; break
    if set(roles) != {"due", "iters", "seq"}: raise Unsupported("roles of the fields of a queued task: %s" % roles)
    st.ghost["qbase"] = QState(s.blk, s.cells, s.regs, qs[0], cs[0], roles)
def queue_inv(ex, st, nxt):
    s = st.ghost["qbase"]; b = st.mem[s.blk]
    for o in changed(st, s):
        if o not in (s.queue, s.counter): 
            v = b.cells[o][1]
            if isinstance(v, QVec): return zb(eq(v.n, 0))
            raise Unsupported("other state of the task runner changes")
    q = b.cells[s.queue][1].settled(st); cnt = bv(b.cells[s.counter][1], 64); c0 = s.cells[s.counter][1]; fp = st.ghost["qfocus"]; r = s.roles
    g = lambda X, nm: b64(ex.load(st, Ptr(fp.b, fp.o + 8 * (len(FOC) * X + FOC.index(nm))), 8, "i"))
    out = [zb(inv(q)), zb(q.hp), cnt == bv(c0, 64) + bv(nxt, 64)]
    for X in (0, 1):
        i = zb(q.inn[X]); w = lambda nm: bv(q.w[X][r[nm]], 64)
        out += [i == z3.And(g(X, "posted") != 0, g(X, "done") == 0), z3.Implies(i, z3.And(w("due") == g(X, "due"), w("iters") == g(X, "iters"), z3.ULT(w("seq"), cnt)))]
    seq = lambda X: bv(q.w[X][r["seq"]], 64)
    out.append(z3.Implies(z3.And(zb(q.inn[0]), zb(q.inn[1])), z3.And(seq(0) != seq(1), z3.ULT(seq(0), seq(1)) == z3.ULT(g(0, "id"), g(1, "id")))))
    return z3.And(*out)
@x("verif_queue_any")
def queue_any(ex, st, a, ins, f):
    """Any state in which the invariant holds; a[1] tasks have been posted."""
    s = st.ghost["qbase"]; b = st.wblk(s.blk); q = b.cells[s.queue][1]
    nq = q.but(ver=ex.sym("ver", 64))
    for p in q.parts(): nq = nq.with_part(p, ex.sym("q_" + p[0], p[2]))
    b.cells[s.queue] = (24, nq); b.cells[s.counter] = (8, ex.sym("counter", 64))
    for o, (n, v) in list(b.cells.items()):
        if isinstance(v, QVec) and o != s.queue: b.cells[o] = (24, v.but(n=0, inn=(False, False), hp=True, hl=True, sq=True))
    st.pc.append(zb(queue_inv(ex, st, a[1])))
@x("verif_queue_ok")
def queue_ok(ex, st, a, ins, f): return queue_inv(ex, st, a[1])
def queue_bounds(cx):
    """Numbers an iteration count may be bounded by: sizes of queues, fields of the element in hand, locals."""
    out = []; ex, st = cx.ex, cx.entry.st
    for b in st.mem.values():
        for o, (n, v) in sorted(b.cells.items()):
            if isinstance(v, QVec): out.append(v.n)
            elif b.id in cx.entry.allocas and n == 8 and isinstance(v, z3.BitVecRef) and len(out) < 24: out.append(v)
    return out
