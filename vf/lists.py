"""Arrays of any length of opaque elements (StrCat/Format arguments, hashes), seen only through their members' contracts."""
import re
import z3
from .sym import *
from .exe import *
from .stdc import x, c, TABLE, EXACT, cstring, add_input, MAXLEN
from .loops import LoopSpec, node_of

B64 = z3.BitVecSort(64)

def index_of(ex, st, o, stride, ins, n):
    """The element index of a byte offset."""
    t = lin_div(o, stride)
    if t is None:
        t = ex.unique(st, o) if not isc(o) else None
        if t is not None: t = t // stride if t % stride == 0 else None
    if t is None:
        t = ex.sym("idx", 64); ex.require(st, z3.URem(bv(o, 64), z3.BitVecVal(stride, 64)) == 0, "safety", "access to a whole element", ins)
        ex.assume(st, z3.And(t * z3.BitVecVal(stride, 64) == bv(o, 64), z3.ULE(t, z3.BitVecVal(1 << 40, 64))))
    ex.require(st, ult(t, n), "safety", "element index in range", ins)
    return t

def lin_div(o, s):
    if isc(o): return o // s if o % s == 0 else None
    k = o.decl().kind()
    if k == z3.Z3_OP_BMUL and o.num_args() == 2:
        for a, b in ((o.arg(0), o.arg(1)), (o.arg(1), o.arg(0))):
            if z3.is_bv_value(a) and a.as_long() % s == 0 and a.as_long() < 1 << 60: return mul(b, a.as_long() // s)
    if k == z3.Z3_OP_BADD:
        r = 0
        for a in o.children():
            q = lin_div(a.as_long() if z3.is_bv_value(a) else a, s)
            if q is None and z3.is_bv_value(a) and a.as_long() >> 63 and (1 << 64) - a.as_long() < 1 << 60 and (-a.as_long()) % (1 << 64) % s == 0: q = (-(((1 << 64) - a.as_long()) // s)) % (1 << 64)
            if q is None: return None
            r = add(r, q)
        return r
    return None

class ElemArr:
    """Block content: whole opaque elements; raw access is unsupported."""
    def same(self, o): return self is o
    def read(self, ex, st, b, o, n, want): raise Unsupported("raw read of an opaque element")
    def write(self, ex, st, b, o, n, v): raise Unsupported("raw write of an opaque element")
    def content(self, ex, st, b, start, n): raise Unsupported("raw copy of opaque elements")

class Args:
    """n arguments; argument k has the text pool[off(k), off(k)+len(k)). Sum(k) is the total length before k."""
    def __init__(self, ex, st, name, stride):
        ex.nsym += 1; u = ex.nsym
        self.n = ex.sym("count_" + name, 64); self.stride = stride
        self.len = z3.Function("len!%d" % u, B64, B64); self.off = z3.Function("off!%d" % u, B64, B64); self.sum = z3.Function("sum!%d" % u, B64, B64)
        self.txt = z3.Function("text!%d" % u, B64, z3.BitVecSort(8)); self.plen = ex.sym("pool", 64)
        ex.assume(st, z3.And(z3.ULE(self.n, z3.BitVecVal(1 << 30, 64)), z3.ULE(self.plen, z3.BitVecVal(1 << 40, 64)), self.sum(z3.BitVecVal(0, 64)) == 0))
        b = ex.new_blk(st, "input", mul(self.n, stride), name); b.arr = ElemArr(); b.ro = True; self.blk = b.id
        p = ex.new_blk(st, "input", self.plen, "texts"); p.regs = ((0, self.plen, BArr(self.txt)),); p.ro = True; self.pool = p.id
        self.focus = None; ex.args_of = getattr(ex, "args_of", {}); ex.args_of[b.id] = self
        st.pc.extend(self.total())
    def total(self): return [z3.ULE(self.sum(self.n), z3.BitVecVal(1 << 60, 64))]
    def at(self, k):
        """Facts about argument k (definitions of sum; monotonicity of sum is proved in lemma_sum_monotonic)."""
        k = bv(k, 64); s = self.sum; L = self.len
        r = [z3.Implies(z3.ULT(k, self.n), z3.And(z3.ULE(L(k), self.plen), z3.ULE(self.off(k), self.plen - L(k)), s(k + 1) == s(k) + L(k), z3.ULE(s(k), s(k + 1)), z3.ULE(s(k + 1), s(self.n)))),
             z3.Implies(z3.ULE(k, self.n), z3.ULE(s(k), s(self.n)))]
        if self.focus is not None:
            J = self.focus[0]
            r.append(z3.Implies(z3.And(z3.ULT(k, J)), z3.ULE(s(k + 1), s(J))))
            r.append(z3.Implies(z3.And(z3.ULT(J, k), z3.ULE(k, self.n)), z3.ULE(s(J + 1), s(k))))
        return r
    def use(self, ex, st, k):
        st.pc.extend(zb(f) for f in self.at(k))

def arg_of(ex, st, p, ins):
    if not isinstance(p, Ptr): return None
    A = getattr(ex, "args_of", {}).get(p.b)
    if A is None: return None
    k = index_of(ex, st, p.o, A.stride, ins, A.n); A.use(ex, st, k); return A, bv(k, 64)

@x("verif_args")
def verif_args(ex, st, a, ins, f):
    A = Args(ex, st, cstring(ex, st, a[1]), a[0]); ex.cur_args = A
    ex.store(st, a[2], 8, Ptr(A.blk, 0)); return A.n
@x("verif_args_focus")
def verif_args_focus(ex, st, a, ins, f):
    A = ex.cur_args; j = bv(a[0], 64); r = bv(a[1], 64); A.focus = (j, r); A.use(ex, st, j)
@x("verif_arg_size")
def verif_arg_size(ex, st, a, ins, f): A = ex.cur_args; A.use(ex, st, a[0]); return A.len(bv(a[0], 64))
@x("verif_arg_prefix")
def verif_arg_prefix(ex, st, a, ins, f): A = ex.cur_args; A.use(ex, st, a[0]); return A.sum(bv(a[0], 64))
@x("verif_arg_byte")
def verif_arg_byte(ex, st, a, ins, f): A = ex.cur_args; return A.txt(A.off(bv(a[0], 64)) + bv(a[1], 64))

@c(r"^rst::internal::Arg::size\(\) const$", "Arg::size (contract proved in C03)")
def arg_size(ex, st, a, ins, f):
    r = arg_of(ex, st, a[0], ins)
    return NotImplemented if r is None else r[0].len(r[1])
@c(r"^rst::internal::Arg::view\(\) const$", "Arg::view (contract proved in C03)")
def arg_view(ex, st, a, ins, f):
    r = arg_of(ex, st, a[0], ins)
    return NotImplemented if r is None else [r[0].len(r[1]), Ptr(r[0].pool, r[0].off(r[1]))]

def sum_cands(cx):
    """Every modified location may be the sum of the sizes so far; every modified text may agree with the focused byte."""
    A = getattr(cx.ex, "cur_args", None); out = []
    if A is None: return out
    for v in cx.vars:
        if v.kind in ("int", "ptr", "len") and v.bits == 64:
            out.append(("%r == entry + sum" % v, lambda get, it, v=v: bv(get(v), 64) == bv(v.entry, 64) + A.sum(it)))
            out.append(("%r == entry + total - sum" % v, lambda get, it, v=v: bv(get(v), 64) == bv(v.entry, 64) + A.sum(A.n) - A.sum(A.n - it)))
        if v.kind == "region" and A.focus is not None:
            J, R = A.focus; q = A.sum(J) + R; want = A.txt(A.off(J) + R)
            for nm, cond in (("forward", lambda it: z3.ULT(J, it)), ("backward", lambda it: z3.ULE(A.n - it, J))):
                def cand(get, it, v=v, cond=cond):
                    val, d = bread(get(v), q)
                    return IMP(cond(it), AND(d, eq(val, want, 8)))
                out.append(("written %s %r" % (nm, v), cand))
    return out
def sum_facts(cx):
    A = getattr(cx.ex, "cur_args", None)
    return [] if A is None else A.at(cx.it)
def sum_bounds(cx):
    A = getattr(cx.ex, "cur_args", None)
    return [] if A is None else [A.n]

def rst_loops(spec, also=None, but=None):
    """Policy: cut the loops of library functions (not those of harnesses)."""
    def pol(ex):
        cache = {}
        def f(fn, h):
            r = cache.get(fn.name)
            if r is None:
                d = demangle(fn.name); r = cache[fn.name] = bool(re.search(r"\brst::", d)) or bool(also and re.search(also, d))
                if but and re.search(but, d): r = cache[fn.name] = False
            return spec if r else None
        return f
    return pol

# ---------------------------------------------------------------- format texts
class Fmt:
    """The meaning of a format text f of length N with n arguments.  Tokens start at 0 and follow each other:
    start(i) <=> a token starts at i; args(i), out(i) count what the tokens before i consume and produce; wf <=> they end at N with n arguments.
    The facts below are the definition, unfolded at one position at a time."""
    def __init__(self, ex, st, blk, N, A):
        ex.nsym += 1; u = ex.nsym
        self.blk = blk; self.N = bv(N, 64); self.A = A
        self.start = z3.Function("start!%d" % u, B64, z3.BoolSort()); self.args = z3.Function("args!%d" % u, B64, B64); self.out = z3.Function("out!%d" % u, B64, B64)
        self.wf = z3.Bool("wf!%d" % u); self.f = lambda i: bv(bread(node_of(st.mem[blk]), i)[0], 8)
        self.focus = None
        z = z3.BitVecVal(0, 64)
        st.pc.extend([self.start(z), self.args(z) == 0, self.out(z) == 0])
        st.pc.extend(self.at(z) + self.at(self.N))
    def tok(self, i):
        """-> (well formed, is placeholder, length, produced)"""
        c = self.f(i); d = self.f(i + 1); br = z3.Or(c == 123, c == 125)
        ph = z3.And(c == 123, d == 125); esc = z3.And(br, d == c); plain = z3.Not(br)
        good = z3.Or(plain, esc, z3.And(ph, z3.ULT(self.args(i), self.A.n)))
        return good, ph, z3.If(plain, z3.BitVecVal(1, 64), z3.BitVecVal(2, 64)), z3.If(ph, self.A.len(self.args(i)), z3.BitVecVal(1, 64))
    def at(self, i):
        i = bv(i, 64); good, ph, l, o = self.tok(i); c = self.f(i); d = self.f(i + 1); br = z3.Or(c == 123, c == 125)
        g = z3.And(self.start(i), z3.ULT(i, self.N)); a = self.args(i); i1 = i + 1; i2 = i + 2
        r = [z3.Implies(z3.And(g, z3.Not(br)), z3.And(self.start(i1), self.args(i1) == a, self.out(i1) == self.out(i) + 1)),
             z3.Implies(z3.And(g, br, d == c), z3.And(self.start(i2), z3.Not(self.start(i1)), z3.ULE(i2, self.N), self.args(i2) == a, self.out(i2) == self.out(i) + 1)),
             z3.Implies(z3.And(g, ph, z3.ULT(a, self.A.n)), z3.And(self.start(i2), z3.Not(self.start(i1)), z3.ULE(i2, self.N), self.args(i2) == a + 1, self.out(i2) == self.out(i) + self.A.len(a))),
             z3.Implies(z3.And(g, z3.Not(good)), z3.Not(self.wf)),
             self.wf == z3.And(self.start(self.N), self.args(self.N) == self.A.n)]
        return r + self.A.at(a)

@x("verif_format")
def verif_format(ex, st, a, ins, f):
    p = a[0]; ex.cur_fmt = Fmt(ex, st, p.b, st.ghost[("cstr", p.b)], ex.cur_args)
@x("verif_format_ok")
def verif_format_ok(ex, st, a, ins, f): return ex.zext(ex.cur_fmt.wf, 1, 8) if True else 0
@x("verif_format_size")
def verif_format_size(ex, st, a, ins, f): return ex.cur_fmt.out(ex.cur_fmt.N)
@x("verif_format_focus")
def verif_format_focus(ex, st, a, ins, f):
    F = ex.cur_fmt; T = bv(a[0], 64); R = bv(a[1], 64)
    good, ph, l, o = F.tok(T); F.focus = (T, R, o, l, F.out(T) + R, z3.If(ph, F.A.txt(F.A.off(F.args(T)) + R), F.f(T)))
    F.A.focus = (F.args(T), R)
    st.pc.extend(F.at(T)); st.pc.extend([F.start(T), z3.ULT(T, F.N), good, z3.ULT(R, o)])
@x("verif_format_pos")
def verif_format_pos(ex, st, a, ins, f): return ex.cur_fmt.focus[4]
@x("verif_format_byte")
def verif_format_byte(ex, st, a, ins, f): return ex.cur_fmt.focus[5]

def fmt_pos(F, vs):
    r = [v for v in vs if v.bits == 64 and v.kind == "ptr" and v.block == F.blk]
    return r or [v for v in vs if v.bits == 64 and v.kind == "int"]
def fmt_cands(cx):
    F = getattr(cx.ex, "cur_fmt", None); out = []
    if F is None: return out
    for v in fmt_pos(F, cx.vars):
        out.append(("token starts at %r" % v, lambda get, it, v=v: z3.And(F.start(bv(get(v), 64)), z3.ULE(bv(get(v), 64), F.N))))
        out.append(("output so far is bounded %r" % v, lambda get, it, v=v: (lambda p: z3.And(z3.ULE(F.out(p), p + F.A.sum(F.args(p)))))(bv(get(v), 64))))
        out.append(("arguments so far %r" % v, lambda get, it, v=v: z3.ULE(F.args(bv(get(v), 64)), F.A.n)))
        if F.focus is not None:
            T, R, o, l, Q, want = F.focus
            out.append(("output continues after the focused token %r" % v, lambda get, it, v=v: (lambda p: z3.Implies(z3.ULT(T, p), z3.And(z3.ULE(T + l, p), z3.ULE(F.out(T), F.out(T) + o), z3.ULE(F.out(T) + o, F.out(p)))))(bv(get(v), 64))))
        for w in cx.vars:
            if w is v: continue
            if w.kind in ("int", "ptr", "len") and w.bits == 64:
                out.append(("%r == args(%r)" % (w, v), lambda get, it, v=v, w=w: bv(get(w), 64) == bv(w.entry, 64) + F.args(bv(get(v), 64))))
                out.append(("%r == out(%r)" % (w, v), lambda get, it, v=v, w=w: bv(get(w), 64) == bv(w.entry, 64) + F.out(bv(get(v), 64))))
            if w.kind == "region" and F.focus is not None:
                def cand(get, it, v=v, w=w):
                    val, d = bread(get(w), Q)
                    return IMP(z3.ULT(T, bv(get(v), 64)), AND(d, eq(val, want, 8)))
                out.append(("focused byte written %r before %r" % (w, v), cand))
    return out
def fmt_facts(cx):
    F = getattr(cx.ex, "cur_fmt", None); r = []
    if F is None: return r
    for v in fmt_pos(F, cx.vars):
        try: p = bv(cx.get(v), 64)
        except Unsupported: continue
        r += F.at(p)
    return r

# ---------------------------------------------------------------- lists of hashes
class Words:
    """n opaque elements of one 64-bit word each; element k holds H(k)."""
    def __init__(self, H, n): self.H = H; self.n = n
    def same(self, o): return self is o
    def read(self, ex, st, b, o, n, want):
        if n != 8: raise Unsupported("raw read of an opaque element")
        return self.H(bv(index_of(ex, st, o, 8, None, self.n), 64))
    def write(self, ex, st, b, o, n, v): raise Unsupported("write to an opaque element")
    def content(self, ex, st, b, start, n): raise Unsupported("raw copy of opaque elements")

@x("verif_words")
def verif_words(ex, st, a, ins, f):
    """An array of any length of any 64-bit words."""
    if a[0] != 8: raise Unsupported("elements of %r bytes" % (a[0],))
    ex.nsym += 1; n = ex.sym("count_" + cstring(ex, st, a[1]), 64)
    W = Words(z3.Function("hash!%d" % ex.nsym, B64, B64), n); ex.cur_words = W; ex.cur_fold = None
    ex.assume(st, z3.ULE(n, z3.BitVecVal(1 << 40, 64)))
    b = ex.new_blk(st, "input", mul(n, 8), "words"); b.arr = W; b.ro = True
    ex.store(st, a[2], 8, Ptr(b.id, 0)); return n
@x("verif_word")
def verif_word(ex, st, a, ins, f): return ex.cur_words.H(bv(a[0], 64))
@x("verif_fold")
def verif_fold(ex, st, a, ins, f):
    """step(h, k) = the term a[2] over the symbols a[0], a[1].  Defines fold(1) = H(0), fold(i+1) = step(fold(i), H(i))."""
    h, k, t = a; W = ex.cur_words
    if not (z3.is_const(h) and z3.is_const(k)) or isc(t): raise Unsupported("step of the fold")
    free = set(); work = [t]; seen = set()
    while work:
        y = work.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED: free.add(str(y))
        work.extend(y.children())
    ex.require(st, free <= {str(h), str(k)}, "post", "the step depends on nothing else", ins)
    ex.nsym += 1; F = z3.Function("fold!%d" % ex.nsym, B64, B64)
    W.step = lambda i: F(i + 1) == z3.substitute(t, (h, F(i)), (k, W.H(i)))
    W.F = F; ex.cur_fold = W
    st.pc.append(F(z3.BitVecVal(1, 64)) == W.H(z3.BitVecVal(0, 64)))
@x("verif_folded")
def verif_folded(ex, st, a, ins, f): return ex.cur_words.F(ex.cur_words.n)

def fold_cands(cx):
    W = getattr(cx.ex, "cur_fold", None); out = []
    if W is None: return out
    for v in cx.vars:
        if v.kind == "int" and v.bits == 64:
            for d in (0, 1, 2): out.append(("%r == fold(it+%d)" % (v, d), lambda get, it, v=v, d=d: bv(get(v), 64) == W.F(it + d)))
            out.append(("%r == fold(it) after the first" % v, lambda get, it, v=v: z3.Or(it == 0, bv(get(v), 64) == W.F(it))))
            out.append(("%r == fold(it) after the first address" % v, lambda get, it, v=v: z3.Or(it * 8 == 0, bv(get(v), 64) == W.F(it))))
            out.append(("%r as before at first" % v, lambda get, it, v=v: z3.Or(it != 0, bv(get(v), 64) == bv(v.entry, 64))))
        elif v.kind == "int" and v.bits == 8:      # a flag for the first or for the later elements
            for a, b in ((1, 0), (0, 1)): out.append(("%r is %d at first, then %d" % (v, a, b), lambda get, it, v=v, a=a, b=b: bv(get(v), 8) == z3.If(it == 0, z3.BitVecVal(a, 8), z3.BitVecVal(b, 8))))
    return out
def fold_facts(cx):
    W = getattr(cx.ex, "cur_fold", None)
    return [] if W is None else [W.step(cx.it), W.step(cx.it + 1)]
def fold_bounds(cx):
    W = getattr(cx.ex, "cur_fold", None)
    return [] if W is None else [W.n, W.n - 1]
