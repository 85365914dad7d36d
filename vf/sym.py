"""Values, memory and states of the symbolic executor."""
import z3

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(self, cond): self.cond = cond
class PathEnd(Exception):
    """The current path ends (abort, assumption false, ...)."""

class Undef:
    def __repr__(self): return "undef"
UNDEF = Undef()

class MaybeUndef:
    """Defined (as val) exactly when cond holds."""
    __slots__ = ("cond", "val")
    def __init__(self, cond, val): self.cond = cond; self.val = val

class Ptr:
    __slots__ = ("b", "o")
    def __init__(self, b, o=0): self.b = b; self.o = o
    def __repr__(self): return "Ptr(%s,%s)" % (self.b, self.o)
    def __eq__(self, x): return isinstance(x, Ptr) and self.b == x.b and same(self.o, x.o)
    def __hash__(self): return hash(self.b)
NULL = Ptr(0, 0)

class PInt:
    """An integer that is the address of a pointer (ptrtoint)."""
    __slots__ = ("p",)
    def __init__(self, p): self.p = p
    def __eq__(self, x): return isinstance(x, PInt) and self.p == x.p
    def __hash__(self): return hash(self.p)
    def __repr__(self): return "PInt(%r)" % self.p

class Obj:
    """Base class of ghost objects (abstract values of library objects). Immutable."""
    size = None
    def same(self, o): return self is o
    def merge(self, c, o): return None          # merged Obj or None
    def __repr__(self): return type(self).__name__

def same(a, b):
    """Syntactic equality."""
    if a is b: return True
    if isinstance(a, z3.ExprRef):
        return isinstance(b, z3.ExprRef) and a.eq(b)
    if isinstance(b, z3.ExprRef): return False
    if isinstance(a, (tuple, list)): return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Obj): return isinstance(b, Obj) and a.same(b)
    if isinstance(a, MaybeUndef): return isinstance(b, MaybeUndef) and same(a.cond, b.cond) and same(a.val, b.val)
    if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)): return False
    return a == b

# ---------- integers ----------
def isc(x): return isinstance(x, int)
def bv(x, bits): return z3.BitVecVal(x, bits) if isinstance(x, int) else x
def tobool(x):
    if isinstance(x, int): return bool(x)
    return x
def zb(x):
    if isinstance(x, (bool, int)): return z3.BoolVal(bool(x))
    return x
def AND(*xs):
    r = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if not x: return False
        else: r.append(x)
    return True if not r else r[0] if len(r) == 1 else z3.And(r)
def OR(*xs):
    r = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if x: return True
        else: r.append(x)
    return False if not r else r[0] if len(r) == 1 else z3.Or(r)
def NOT(x):
    if isinstance(x, (bool, int)): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def IMP(a, b): return OR(NOT(a), b)

def sgn(x, bits): return x - (1 << bits) if x >> (bits - 1) else x

def fold(t):
    """simplify and turn numerals into ints."""
    t = z3.simplify(t)
    if z3.is_bv_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t

def add(a, b, bits=64):
    if isc(a):
        if isc(b): return (a + b) & ((1 << bits) - 1)
        if a == 0: return b
        a = bv(a, bits)
    elif isc(b):
        if b == 0: return a
        # (t + c1) + c2
        if a.decl().kind() == z3.Z3_OP_BADD and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
            c = (a.arg(1).as_long() + b) & ((1 << bits) - 1)
            return a.arg(0) if c == 0 else a.arg(0) + z3.BitVecVal(c, bits)
        b = bv(b, bits)
    return a + b
def sub(a, b, bits=64):
    if isc(a) and isc(b): return (a - b) & ((1 << bits) - 1)
    if isc(b): return add(a, (-b) & ((1 << bits) - 1), bits)
    if same(a, b): return 0
    r = bv(a, bits) - bv(b, bits)
    return fold(r)
def mul(a, b, bits=64):
    if isc(a) and isc(b): return (a * b) & ((1 << bits) - 1)
    if isc(a): a, b = b, a
    if isc(b):
        if b == 0: return 0
        if b == 1: return a
        b = bv(b, bits)
    return a * b
def eq(a, b, bits=64):
    if isc(a) and isc(b): return a == b
    if same(a, b): return True
    if isinstance(a, PInt) or isinstance(b, PInt): raise Unsupported("eq on PInt")
    return bv(a, bits) == bv(b, bits)
def ult(a, b, bits=64):
    if isc(a) and isc(b): return a < b
    if isc(b) and b == 0: return False
    if same(a, b): return False
    return z3.ULT(bv(a, bits), bv(b, bits))
def ule(a, b, bits=64):
    if isc(a) and isc(b): return a <= b
    if isc(a) and a == 0: return True
    if same(a, b): return True
    return z3.ULE(bv(a, bits), bv(b, bits))
def ite(c, a, b, bits=None):
    if isinstance(c, (bool, int)): return a if c else b
    if same(a, b): return a
    if bits == 1 or isinstance(a, (bool, z3.BoolRef)) or isinstance(b, (bool, z3.BoolRef)):
        return z3.If(c, zb(a), zb(b))
    if bits is None:
        bits = a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else None
    # t == k ? x : y is y when y with k for t is x (an empty text changes nothing)
    if bits == 64:
        n = z3.is_not(c); e = c.arg(0) if n else c
        if z3.is_eq(e):
            t, k = e.arg(0), e.arg(1)
            if z3.is_bv_value(t): t, k = k, t
            if z3.is_bv_value(k) and z3.is_const(t) and not z3.is_bv_value(t):
                x, y = (b, a) if n else (a, b)
                if isinstance(y, z3.ExprRef) and small(y):
                    r = z3.simplify(z3.substitute(y, (t, k)) - bv(x, bits))
                    if z3.is_bv_value(r) and r.as_long() == 0: return y
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return z3.If(c, a, b)
    return z3.If(c, bv(a, bits), bv(b, bits))
def small(t, lim=60):
    n = 0; w = [t]
    while w:
        x = w.pop(); n += 1
        if n > lim: return False
        w.extend(x.children())
    return True

# ---------- byte contents ----------
class BNode: pass
class BArr(BNode):
    """Content given by a z3 array/function: byte(off)."""
    __slots__ = ("f",)
    def __init__(self, f): self.f = f
class BArrD(BNode):
    """Like BArr, with a definedness predicate d(off)."""
    __slots__ = ("f", "d")
    def __init__(self, f, d): self.f = f; self.d = d
class BConst(BNode):
    __slots__ = ("s",)
    def __init__(self, s): self.s = s
class BUndef(BNode): pass
class BZero(BNode): pass
class BStore(BNode):
    __slots__ = ("prev", "off", "val")
    def __init__(self, prev, off, val): self.prev = prev; self.off = off; self.val = val
class BCopy(BNode):
    __slots__ = ("prev", "dst", "n", "src", "so")
    def __init__(self, prev, dst, n, src, so): self.prev = prev; self.dst = dst; self.n = n; self.src = src; self.so = so
class BFill(BNode):
    __slots__ = ("prev", "dst", "n", "val")
    def __init__(self, prev, dst, n, val): self.prev = prev; self.dst = dst; self.n = n; self.val = val
class BIte(BNode):
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

def bread(node, off):
    """(value, defined) of the byte at off."""
    while True:
        if isinstance(node, BStore):
            e = eq(off, node.off)
            if not isc(e): e = fold(e)
            if isc(e):
                if e: return node.val, True
                node = node.prev; continue
            v, d = bread(node.prev, off)
            if isinstance(v, (PInt,)) or isinstance(node.val, PInt): raise Unsupported("pointer bytes")
            return ite(e, node.val, v, 8), OR(e, d)
        if isinstance(node, (BCopy, BFill)):
            rel = sub(off, node.dst); inside = ult(rel, node.n)
            if not isc(inside): inside = fold(inside)
            if isc(inside):
                if not inside: node = node.prev; continue
                if isinstance(node, BFill): return node.val, True
                off = add(rel, node.so); node = node.src; continue
            if isinstance(node, BFill): v1, d1 = node.val, True
            else: v1, d1 = bread(node.src, add(rel, node.so))
            v2, d2 = bread(node.prev, off)
            return ite(inside, v1, v2, 8), OR(AND(inside, d1), AND(NOT(inside), d2))
        if isinstance(node, BIte):
            v1, d1 = bread(node.a, off); v2, d2 = bread(node.b, off)
            return ite(node.c, v1, v2, 8), OR(AND(node.c, d1), AND(NOT(node.c), d2))
        if isinstance(node, BArr):
            v = node.f(bv(off, 64))
            return v, True
        if isinstance(node, BArrD): return node.f(bv(off, 64)), node.d(bv(off, 64))
        if isinstance(node, BZero): return 0, True
        if isinstance(node, BConst):
            s = node.s
            if isc(off): return (s[off], True) if off < len(s) else (0, True)
            v = z3.BitVecVal(0, 8)
            for i in range(len(s) - 1, -1, -1):
                v = z3.If(off == z3.BitVecVal(i, 64), z3.BitVecVal(s[i], 8), v)
            return v, True
        if isinstance(node, BUndef): return z3.FreshConst(z3.BitVecSort(8), "undef"), False
        raise Unsupported("bread " + type(node).__name__)

# ---------- blocks and states ----------
class Blk:
    __slots__ = ("id", "kind", "size", "alive", "cells", "regs", "owner", "name", "lazy", "ro", "arr", "freed_by", "align")
    def __init__(self, id, kind, size, name=""):
        self.align = 8
        self.id = id; self.kind = kind; self.size = size; self.alive = True; self.cells = {}; self.regs = ()
        self.owner = None; self.name = name; self.lazy = None; self.ro = False; self.arr = None; self.freed_by = None
    def clone(self, owner):
        b = Blk.__new__(Blk); b.align = self.align
        b.id = self.id; b.kind = self.kind; b.size = self.size; b.alive = self.alive; b.cells = dict(self.cells)
        b.regs = self.regs; b.owner = owner; b.name = self.name; b.lazy = self.lazy; b.ro = self.ro; b.arr = self.arr; b.freed_by = self.freed_by
        return b

class Tok: __slots__ = ()
class State:
    __slots__ = ("pc", "mem", "ghost", "decided", "tok")
    def __init__(self):
        self.pc = []; self.mem = {}; self.ghost = {}; self.decided = {}; self.tok = object()
    def fork(self):
        s = State(); s.pc = list(self.pc); s.mem = dict(self.mem); s.ghost = dict(self.ghost)
        s.decided = dict(self.decided)
        self.tok = object()          # both sides lose ownership of the shared blocks
        return s
    def become(self, o):
        self.pc, self.mem, self.ghost, self.decided = o.pc, o.mem, o.ghost, o.decided; self.tok = object()
    def blk(self, bid):
        return self.mem.get(bid)
    def wblk(self, bid):
        b = self.mem[bid]
        if b.owner is not self.tok:
            b = b.clone(self.tok); self.mem[bid] = b
        return b
