"""Contracts of library functions (assumed; the trusted base) and of the harness interface."""
import re
import z3
from .sym import *
from .exe import *
from . import exe

TABLE = []        # (regex, handler)
EXACT = {}        # mangled/C name -> handler
def c(rx, name=None):
    def d(f):
        f.cname = name or f.__name__
        TABLE.append((re.compile(rx), f)); return f
    return d
def x(*names):
    def d(f):
        f.cname = f.__name__
        for n in names: EXACT[n] = f
        return f
    return d

# ---------------------------------------------------------------- helpers
def cstring(ex, st, p):
    """Text of a constant C string."""
    out = bytearray(); o = p.o
    while True:
        v = ex.load(st, Ptr(p.b, o), 1, "i")
        if not isc(v): raise Unsupported("label is not constant")
        if v == 0: return out.decode("latin-1")
        out.append(v); o += 1

def add_input(st, kind, name, *t):
    st.ghost["inputs"] = st.ghost.get("inputs", ()) + ((kind, name) + t,)

def get_obj(ex, st, p, cls, ins=None):
    ex.access(st, p, cls.size, "use of a " + cls.__name__, ins)
    b = st.mem[p.b]
    o = p.o if isc(p.o) else fold(p.o)
    if b.arr is not None:
        r = b.arr.read(ex, st, b, o, cls.size, "o")
        if isinstance(r, cls): return r
    if not isc(o):
        u = ex.unique(st, o)
        if u is None: raise Unsupported("object at a symbolic offset")
        o = u
    cell = b.cells.get(o)
    if (cell is None or cell[0] != cls.size) and any(co <= o and o + cls.size <= co + n and getattr(v, "whole", False) for co, (n, v) in b.cells.items()): raise Unsupported("use of a part of an object that is only seen as a whole")
    if cell is None and b.lazy is not None:
        v = b.lazy(ex, st, b, o, cls.size, "obj:" + cls.__name__)
        if v is not NotImplemented:
            st.wblk(b.id).cells[o] = (cls.size, v); return v
    if cell is None or not isinstance(cell[1], cls):
        ex.require(st, False, "safety", "%s used here is alive (constructed and not destroyed)" % cls.__name__, ins)
    return cell[1]

def put_obj(ex, st, p, obj, ins=None):
    ex.access(st, p, obj.size, "construction of a " + type(obj).__name__, ins, True)
    ex.store(st, p, obj.size, obj)

def kill_obj(ex, st, p, cls, ins=None):
    o = get_obj(ex, st, p, cls, ins)
    ex.store(st, p, cls.size, UNDEF)
    return o

def obj_alive(ex, st, p, cls):
    b = st.mem.get(p.b)
    if b is None: return False
    cell = b.cells.get(p.o) if isc(p.o) else None
    return cell is not None and isinstance(cell[1], cls)

# ---------------------------------------------------------------- harness interface
@x("verif_any")
def verif_any(ex, st, a, ins, f):
    bits = a[0]; name = cstring(ex, st, a[1])
    t = ex.sym(name, bits if bits > 1 else 8)
    add_input(st, "i", name, t)
    return ex.zext(t, bits, 64)

@x("verif_any_double")
def verif_any_double(ex, st, a, ins, f):
    name = cstring(ex, st, a[0]); t = ex.sym_fp(name); add_input(st, "d", name, t); return t

@x("verif_assume")
def verif_assume(ex, st, a, ins, f):
    v = a[0]
    if v is UNDEF: ex.require(st, False, "safety", "assumption on an initialised value", ins)
    v = cond_of(v)
    if not ex.feasible(st, v):
        ex.path_stats["assumed_away"] += 1; raise PathEnd()
    ex.assume(st, v)

def cond_of(v):
    if isinstance(v, (int, z3.BoolRef)): return tobool(v)
    c = as_bool_ite(v)
    return c if c is not None else v != 0

@x("verif_check")
def verif_check(ex, st, a, ins, f):
    v = a[0]; lab = cstring(ex, st, a[1])
    if isinstance(v, MaybeUndef): v = ex.define(st, v)
    if not ex.discover: ex.reached[lab] = ex.reached.get(lab, 0) + 1
    if v is UNDEF: ex.require(st, False, "post", lab + " (uninitialised)", ins)
    ex.require(st, cond_of(v), "post", lab, ins)

@x("verif_cover")
def verif_cover(ex, st, a, ins, f):
    lab = cstring(ex, st, a[0])
    if not ex.discover: ex.reached[lab] = ex.reached.get(lab, 0) + 1

@x("verif_expect_abort")
def verif_expect_abort(ex, st, a, ins, f):
    v = cond_of(a[0]) if a[0] is not UNDEF else None
    if v is None: ex.require(st, False, "safety", "expectation on an initialised value", ins)
    st.ghost["expect"] = (v, cstring(ex, st, a[1]))

@x("verif_end_expect")
def verif_end_expect(ex, st, a, ins, f):
    e = st.ghost.pop("expect", None)
    if e is None: return
    cnd, lab = e
    if not ex.discover: ex.reached["abort iff: " + lab] = ex.reached.get("abort iff: " + lab, 0) + 1
    ex.require(st, NOT(cnd), "abort", "does not abort => not (%s)" % lab, ins)

def abort_hook(ex, st, what, ins):
    e = st.ghost.get("expect")
    if e is None:
        ex.require(st, False, "abort", "no abort: " + what, ins)
    else:
        if not ex.discover: ex.reached["abort iff: " + e[1]] = ex.reached.get("abort iff: " + e[1], 0) + 1
        ex.require(st, e[0], "abort", "aborts (%s) => %s" % (what, e[1]), ins)

@x("verif_native")
def verif_native(ex, st, a, ins, f): return False
@x("verif_rand")
def verif_rand(ex, st, a, ins, f): return 0
@x("verif_hint")
def verif_hint(ex, st, a, ins, f): return None

MAXLEN = 1 << 40
def sym_bytes(ex, st, name, cstr, maxlen=MAXLEN):
    n = ex.sym("len_" + name, 64)
    ex.assume(st, z3.ULE(n, z3.BitVecVal(maxlen, 64)))
    ex.nsym += 1
    arr = z3.Function("bytes_%s!%d" % (name, ex.nsym), z3.BitVecSort(64), z3.BitVecSort(8))
    add_input(st, "b", name, n, arr)
    b = ex.new_blk(st, "input", add(n, 1) if cstr else n, name)
    b.ro = True
    if cstr:
        b.regs = ((0, b.size, BStore(BArr(lambda o: z3.If(arr(o) == 0, z3.BitVecVal(1, 8), arr(o))), n, 0)),)
        st.ghost[("cstr", b.id)] = n
    else: b.regs = ((0, n, BArr(arr)),)
    return b, n, arr

@x("verif_any_bytes")
def verif_any_bytes(ex, st, a, ins, f):
    b, n, _ = sym_bytes(ex, st, cstring(ex, st, a[1]), False)
    ex.store(st, a[0], 8, Ptr(b.id, 0)); return n
@x("verif_any_cstr")
def verif_any_cstr(ex, st, a, ins, f):
    b, n, _ = sym_bytes(ex, st, cstring(ex, st, a[1]), True)
    ex.store(st, a[0], 8, Ptr(b.id, 0)); return n

# ---------------------------------------------------------------- aborting functions
@x("__assert_fail")
def assert_fail(ex, st, a, ins, f):
    ex.do_abort(st, "assertion `%s'" % cstring(ex, st, a[0]), ins)
@x("abort", "_ZSt9terminatev", "__cxa_pure_virtual", "_ZSt21__glibcxx_assert_failPKciS0_S0_")
def abort(ex, st, a, ins, f): ex.do_abort(st, "call of " + demangle(f.name), ins)
@c(r"^std::__throw_\w+\(")
def std_throw(ex, st, a, ins, f): ex.do_abort(st, "library error " + demangle(f.name), ins)
@x("exit", "_exit", "quick_exit")
def exit_(ex, st, a, ins, f): ex.do_abort(st, "call of exit", ins)

# ---------------------------------------------------------------- allocation
@x("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t")
def operator_new(ex, st, a, ins, f):
    n = a[0]
    if n is UNDEF: ex.require(st, False, "safety", "allocation size is initialised", ins)
    b = ex.new_blk(st, "heap", n, "heap"); b.align = 16
    if not ex.discover and "heap" in st.ghost: st.ghost["heap"] = st.ghost["heap"] + 1
    return Ptr(b.id, 0)
@x("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t")
def operator_delete(ex, st, a, ins, f):
    p = ex.as_ptr(a[0])
    if p is UNDEF: ex.require(st, False, "safety", "delete of an initialised pointer", ins)
    if p.b == 0: return
    b = st.mem.get(p.b)
    if b is None or not isc(p.o) or p.o != 0 or b.kind != "heap" or not b.alive:
        ex.require(st, False, "safety", "delete of a live heap allocation", ins)
    b = st.wblk(p.b); b.alive = False
    if "heap" in st.ghost: st.ghost["heap"] = st.ghost["heap"] - 1

# ---------------------------------------------------------------- C string functions
@x("strlen")
def strlen(ex, st, a, ins, f):
    p = a[0]
    ex.access(st, p, 1, "strlen", ins)
    n = st.ghost.get(("cstr", p.b))
    if n is not None:
        ex.require(st, ule(p.o, n), "safety", "strlen within the string", ins)
        return sub(n, p.o)
    b = st.mem[p.b]
    if isc(p.o) and isc(b.size):
        for i in range(p.o, min(b.size, p.o + 5000)):
            v = ex.load(st, Ptr(p.b, i), 1, "i")
            if isinstance(v, MaybeUndef): v = ex.define(st, v)
            if v is UNDEF: ex.require(st, False, "safety", "strlen reads initialised bytes", ins)
            if not isc(v):
                if ex.decide(st, eq(v, 0, 8)): return i - p.o
                continue
            if v == 0: return i - p.o
        ex.require(st, False, "safety", "strlen finds a terminator", ins)
    so = string_owner(ex, st, p)
    if so is not None:
        # NUL-terminated std::string buffer: the first NUL is at most at its size
        n = ex.sym("strlen", 64); L = sub(b.size, 1)
        ex.require(st, ule(p.o, L), "safety", "strlen within the string", ins)
        ex.assume(st, z3.And(z3.ULE(n, bv(sub(L, p.o), 64))))
        v, d = bread(ex.whole(st, p.b), add(p.o, n)); z = eq(v, 0, 8)
        if ex._check(st.pc, zb(AND(z, ult(add(p.o, n), L))))[0] == z3.unsat: return sub(L, p.o)      # no NUL inside
        ex.assume(st, z)
        return n
    raise Unsupported("strlen of " + b.name)

def string_owner(ex, st, p):
    b = st.mem.get(p.b)
    return b if b is not None and b.kind == "strbuf" else None

@x("memcpy", "__memcpy_chk", "mempcpy")
def memcpy_(ex, st, a, ins, f): ex.memcpy(st, a[0], a[1], a[2], ins); return a[0]
@x("memmove")
def memmove_(ex, st, a, ins, f): ex.memcpy(st, a[0], a[1], a[2], ins, "memmove"); return a[0]
@x("memset")
def memset_(ex, st, a, ins, f): ex.memset(st, a[0], ex.trunc(a[1], 32, 8), a[2], ins); return a[0]

@x("memchr")
def memchr(ex, st, a, ins, f):
    p, ch, n = a
    ch = ex.trunc(ch, 32, 8)
    if isc(n) and n == 0: return NULL
    ex.access(st, p, n, "memchr", ins)
    if isc(n) and n <= 64:
        # unrolled: a chain of decisions
        for i in range(n):
            v = ex.load(st, Ptr(p.b, add(p.o, i)), 1, "i")
            if ex.decide(st, eq(v, ch, 8)): return Ptr(p.b, add(p.o, i))
        return NULL
    k = ex.sym("memchr", 64)
    node = ex.content(st, p.b, p.o, n)
    if st.ghost.get("memchr_hook"): 
        r = st.ghost["memchr_hook"](ex, st, p, ch, n, node)
        if r is not None: return r
    memo = getattr(ex, "memo_memchr", False)       # asked again: the same answer
    if memo:
        base, off = canon(ex, n, node)
        for b, o, l, c_, r in st.ghost.get("memchr", ()):
            if b is base and alike(o, off) and alike(l, n) and same(c_, ch): return NULL if r is None else Ptr(p.b, add(p.o, r))
    v, _ = bread(node, k)
    found = ex.sym("found", 1)
    s2 = st.fork()
    ex.assume(st, z3.And(z3.ULT(k, bv(n, 64)), zb(eq(v, ch, 8))))
    first_fact(ex, st, node, ch, k)
    if memo:
        for s, r in ((st, k), (s2, None)): s.ghost["memchr"] = s.ghost.get("memchr", ()) + ((base, off, n, ch, r),)
    out = []
    if ex.feasible(st, True) and ex._check(st.pc, z3.BoolVal(True))[0] != z3.unsat: out.append((st, Ptr(p.b, add(p.o, k))))
    first_fact(ex, s2, node, ch, n)
    out.append((s2, NULL))
    return Multi(out)

def alike(x, y): return same(x, y) or same(x if isc(x) else fold(x), y if isc(y) else fold(y))
def first_fact(ex, st, node, ch, k):
    """no byte equal to ch before k: remembered, and instantiated at the skolem positions of the goal"""
    i = z3.BitVec("i!", 64)
    v, _ = bread(node, i)
    st.pc.append(z3.ForAll([i], z3.Implies(z3.ULT(i, bv(k, 64)), bv(v, 8) != bv(ch, 8))))

@x("memcmp", "bcmp")
def memcmp(ex, st, a, ins, f):
    p, q, n = a
    if isc(n) and n == 0: return 0
    if not isc(n):
        n = fold(n)
    ex.access(st, p, n, "memcmp", ins); ex.access(st, q, n, "memcmp", ins)
    if isc(n) and n <= 64:
        r = z3.BitVecVal(0, 32)
        for i in reversed(range(n)):
            u = ex.load(st, Ptr(p.b, add(p.o, i)), 1, "i"); v = ex.load(st, Ptr(q.b, add(q.o, i)), 1, "i")
            if u is UNDEF or v is UNDEF: ex.require(st, False, "safety", "memcmp of initialised bytes", ins)
            d = z3.ZeroExt(24, bv(u, 8)) - z3.ZeroExt(24, bv(v, 8))
            r = z3.If(bv(u, 8) == bv(v, 8), r, d)
        return fold(r)
    na, nb = ex.content(st, p.b, p.o, n), ex.content(st, q.b, q.o, n)
    r = ex.sym("memcmp", 32); i = z3.BitVec("i!", 64)
    u, _ = bread(na, i); v, _ = bread(nb, i)
    st.pc.append(z3.Implies(r == 0, z3.ForAll([i], z3.Implies(z3.ULT(i, bv(n, 64)), bv(u, 8) == bv(v, 8)))))
    k = ex.sym("differs", 64); u, _ = bread(na, k); v, _ = bread(nb, k)
    st.pc.append(z3.Implies(r != 0, z3.And(z3.ULT(k, bv(n, 64)), bv(u, 8) != bv(v, 8), (r < 0) == z3.ULT(bv(u, 8), bv(v, 8)))))
    return r

# ---------------------------------------------------------------- std::string
class Str(Obj):
    """std::string: a heap-like buffer of len+1 bytes (the last one NUL)."""
    size = 32
    __slots__ = ("buf", "len")
    def __init__(self, buf, ln): self.buf = buf; self.len = ln
    def same(self, o): return isinstance(o, Str) and self.buf == o.buf and same(self.len, o.len)
    def merge(self, cnd, o): return Str(self.buf, ite(cnd, self.len, o.len, 64)) if isinstance(o, Str) and o.buf == self.buf else None
    def __repr__(self): return "Str(%s,%s)" % (self.buf, self.len)
    def havoc(self, ex, st, key):
        from .loops import Var
        n = ex.sym("lv_len", 64); ex.nsym += 1
        f = z3.Function("lv_bytes!%d" % ex.nsym, z3.BitVecSort(64), z3.BitVecSort(8)); d = z3.Function("lv_def!%d" % ex.nsym, z3.BitVecSort(64), z3.BoolSort())
        node = BArrD(f, d); b = ex.new_blk(st, "strbuf", add(n, 1), "std::string buffer"); b.regs = ((0, b.size, BStore(node, n, 0)),)
        v1 = Var("len", key, 64, self.len, n); v1.obj = lambda ex, st, x: x.len
        v2 = Var("region", key, 8, str_node(st, self), node); v2.obj = lambda ex, st, x: str_node(st, x)
        return Str(b.id, n), [v1, v2]
    def resym(self, st, val, v):
        b = st.wblk(self.buf)
        if v.kind == "len":
            b.size = add(val, 1); node = b.regs[0][2]
            b.regs = ((0, b.size, BStore(node.prev, val, 0)),)
            return Str(self.buf, val)
        b.regs = ((0, b.size, BStore(val, self.len, 0)),); return self

def mk_str(ex, st, n, node, so=0):
    b = ex.new_blk(st, "strbuf", add(n, 1), "std::string buffer")
    b.regs = ((0, b.size, BStore(shifted(node, so) if node is not None else BUndef(), n, 0)),)
    return Str(b.id, n)
def str_node(st, s): return exe.CURRENT.whole(st, s.buf)
def drop_buf(st, s):
    if s.buf in st.mem: st.wblk(s.buf).alive = False
def read_span(ex, st, p, n, ins=None):
    """Content node of n bytes at p."""
    if isc(n) and n == 0: return BUndef()
    if isinstance(p, Ptr) and p.b == 0:
        ex.require(st, eq(n, 0), "safety", "null text has length zero", ins); return BUndef()
    ex.access(st, p, n, "read of text", ins)
    return ex.content(st, p.b, p.o, n)

S = r"^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >::"
def sget(ex, st, p, ins=None): return get_obj(ex, st, p, Str, ins)

@c(S + r"basic_string\((std::allocator<char> const&)?\)$", "std::string()")
def str_ctor0(ex, st, a, ins, f): put_obj(ex, st, a[0], mk_str(ex, st, 0, None), ins)
@c(S + r"basic_string(<[^(]*>)?\(char const\*, std::allocator<char> const&\)$", "std::string(const char*)")
def str_ctor_c(ex, st, a, ins, f):
    if isinstance(a[1], Ptr) and a[1].b == 0: ex.do_abort(st, "std::string(nullptr)", ins)
    n = strlen(ex, st, [a[1]], ins, f)
    put_obj(ex, st, a[0], mk_str(ex, st, n, read_span(ex, st, a[1], n, ins)), ins)
@c(S + r"basic_string(<[^(]*>)?\(char const\*, unsigned long, std::allocator<char> const&\)$", "std::string(const char*, n)")
def str_ctor_cn(ex, st, a, ins, f):
    if isinstance(a[1], Ptr) and a[1].b == 0 and not ex.decide(st, eq(a[2], 0)): ex.do_abort(st, "std::string(nullptr, n)", ins)
    put_obj(ex, st, a[0], mk_str(ex, st, a[2], read_span(ex, st, a[1], a[2], ins)), ins)
@c(S + r"basic_string(<[^(]*>)?\(unsigned long, char, std::allocator<char> const&\)$", "std::string(n, c)")
def str_ctor_fill(ex, st, a, ins, f): put_obj(ex, st, a[0], mk_str(ex, st, a[1], BFill(BUndef(), 0, a[1], a[2])), ins)
def view_at(ex, st, p, ins):
    """string_view object in memory -> (ptr, len)"""
    n = ex.define(st, ex.load(st, p, 8, "i")); q = ex.as_ptr(ex.define(st, ex.load(st, Ptr(p.b, add(p.o, 8)), 8, "p")))
    if n is UNDEF or q is UNDEF: ex.require(st, False, "safety", "use of an initialised string_view", ins)
    return q, n
@c(S + r"basic_string<std::basic_string_view<char, std::char_traits<char> >, void>\(std::basic_string_view<char, std::char_traits<char> > const&, std::allocator<char> const&\)$", "std::string(string_view)")
def str_ctor_sv(ex, st, a, ins, f):
    ex.access(st, a[1], 16, "read", ins); q, n = view_at(ex, st, a[1], ins)
    put_obj(ex, st, a[0], mk_str(ex, st, n, read_span(ex, st, q, n, ins)), ins)
@c(S + r"basic_string\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >&&\)$", "std::string(string&&)")
def str_move(ex, st, a, ins, f):
    s = sget(ex, st, a[1], ins); d = mk_str(ex, st, s.len, str_node(st, s)); drop_buf(st, s)
    copy_ghost(st, s, d)
    ex.store(st, a[1], 32, mk_str(ex, st, 0, None)); put_obj(ex, st, a[0], d, ins)
def copy_ghost(st, s, d):
    k = st.ghost.get(("strid", s.buf))
    if k is not None: st.ghost[("strid", d.buf)] = k
@c(S + r"basic_string\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&\)$", "std::string(const string&)")
def str_copy(ex, st, a, ins, f):
    s = sget(ex, st, a[1], ins); d = mk_str(ex, st, s.len, str_node(st, s)); copy_ghost(st, s, d)
    put_obj(ex, st, a[0], d, ins)
@c(S + r"~basic_string\(\)$", "~string")
def str_dtor(ex, st, a, ins, f): drop_buf(st, kill_obj(ex, st, a[0], Str, ins))
@c(S + r"operator=\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >&&\)$", "string = string&&")
def str_massign(ex, st, a, ins, f):
    d = sget(ex, st, a[0], ins); s = sget(ex, st, a[1], ins)
    if a[0] == a[1]: return a[0]
    n = mk_str(ex, st, s.len, str_node(st, s)); copy_ghost(st, s, n); drop_buf(st, s); drop_buf(st, d)
    ex.store(st, a[0], 32, n); ex.store(st, a[1], 32, mk_str(ex, st, 0, None)); return a[0]
@c(S + r"operator=\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&\)$", "string = const string&")
def str_cassign(ex, st, a, ins, f):
    d = sget(ex, st, a[0], ins); s = sget(ex, st, a[1], ins)
    if a[0] == a[1]: return a[0]
    n = mk_str(ex, st, s.len, str_node(st, s)); copy_ghost(st, s, n); drop_buf(st, d); ex.store(st, a[0], 32, n); return a[0]
@c(S + r"(size|length)\(\) const$", "string::size")
def str_size(ex, st, a, ins, f): return sget(ex, st, a[0], ins).len
@c(S + r"empty\(\) const$", "string::empty")
def str_empty(ex, st, a, ins, f): return eq(sget(ex, st, a[0], ins).len, 0)
@c(S + r"(data|c_str|begin)\(\)( const)?$", "string::data")
def str_data(ex, st, a, ins, f): return Ptr(sget(ex, st, a[0], ins).buf, 0)
@c(S + r"end\(\)( const)?$", "string::end")
def str_end(ex, st, a, ins, f): s = sget(ex, st, a[0], ins); return Ptr(s.buf, s.len)
@c(S + r"operator std::basic_string_view<char, std::char_traits<char> >\(\) const$", "string -> string_view")
def str_view(ex, st, a, ins, f): s = sget(ex, st, a[0], ins); return [s.len, Ptr(s.buf, 0)]
@c(S + r"operator\[\]\(unsigned long\)( const)?$", "string::operator[]")
def str_index(ex, st, a, ins, f):
    s = sget(ex, st, a[0], ins); ex.require(st, ule(a[1], s.len), "safety", "string index in range", ins); return Ptr(s.buf, a[1])
@c(S + r"at\(unsigned long\)( const)?$", "string::at")
def str_at(ex, st, a, ins, f):
    s = sget(ex, st, a[0], ins)
    if not ex.decide(st, ult(a[1], s.len)): ex.do_abort(st, "string::at out of range", ins)
    return Ptr(s.buf, a[1])
@c(S + r"(front|back)\(\)( const)?$", "string::front/back")
def str_front(ex, st, a, ins, f):
    s = sget(ex, st, a[0], ins); ex.require(st, NOT(eq(s.len, 0)), "safety", "front/back of a non-empty string", ins)
    return Ptr(s.buf, 0 if "front" in demangle(f.name) else sub(s.len, 1))
def str_set(ex, st, p, s, n, node):
    """Replace the string at p; its old buffer dies (any growth may reallocate)."""
    drop_buf(st, s); ex.store(st, p, 32, mk_str(ex, st, n, node))
def resize(ex, st, p, n, ch, ins):
    s = sget(ex, st, p, ins)
    if isc(n) and n >> 62: ex.do_abort(st, "std::length_error", ins)
    if not isc(n): 
        if not ex.decide(st, ult(n, 1 << 62)): ex.do_abort(st, "std::length_error", ins)
    if ex.decide(st, ule(n, s.len)):
        node = str_node(st, s); b = st.wblk(s.buf); b.regs = ((0, add(n, 1), BStore(node, n, 0)),); b.size = add(n, 1)
        ex.store(st, p, 32, Str(s.buf, n)); return
    str_set(ex, st, p, s, n, BCopy(BFill(BUndef(), 0, n, ch) if ch is not None else BUndef(), 0, s.len, str_node(st, s), 0))
@c(S + r"resize\(unsigned long\)$", "string::resize")
def str_resize(ex, st, a, ins, f): resize(ex, st, a[0], a[1], 0, ins)
@c(S + r"resize\(unsigned long, char\)$", "string::resize")
def str_resize2(ex, st, a, ins, f): resize(ex, st, a[0], a[1], a[2], ins)
@c(S + r"__resize_default_init\(unsigned long\)$", "string::__resize_default_init")
def str_resize3(ex, st, a, ins, f): resize(ex, st, a[0], a[1], None, ins)
@c(S + r"(reserve|shrink_to_fit)\((unsigned long)?\)$", "string::reserve")
def str_reserve(ex, st, a, ins, f): s = sget(ex, st, a[0], ins); str_set(ex, st, a[0], s, s.len, str_node(st, s))
@c(S + r"clear\(\)$", "string::clear")
def str_clear(ex, st, a, ins, f): resize(ex, st, a[0], 0, 0, ins)
def append(ex, st, p, n, node, ins):
    s = sget(ex, st, p, ins)
    str_set(ex, st, p, s, add(s.len, n), BCopy(str_node(st, s), s.len, n, node, 0))
@c(S + r"(append|operator\+=|assign|operator=)\(char const\*\)$", "string::append(const char*)")
def str_app_c(ex, st, a, ins, f):
    n = strlen(ex, st, [a[1]], ins, f); node = read_span(ex, st, a[1], n, ins)
    if re.search(r"::(assign|operator=)\(", demangle(f.name)): str_set(ex, st, a[0], sget(ex, st, a[0], ins), n, node)
    else: append(ex, st, a[0], n, node, ins)
    return a[0]
@c(S + r"(append|assign)\(char const\*, unsigned long\)$", "string::append(const char*, n)")
def str_app_cn(ex, st, a, ins, f):
    node = read_span(ex, st, a[1], a[2], ins)
    if "::assign(" in demangle(f.name): str_set(ex, st, a[0], sget(ex, st, a[0], ins), a[2], node)
    else: append(ex, st, a[0], a[2], node, ins)
    return a[0]
@c(S + r"(append|operator\+=|assign)\(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&\)$", "string::append(string)")
def str_app_s(ex, st, a, ins, f):
    s = sget(ex, st, a[1], ins)
    if "::assign(" in demangle(f.name): str_set(ex, st, a[0], sget(ex, st, a[0], ins), s.len, str_node(st, s))
    else: append(ex, st, a[0], s.len, str_node(st, s), ins)
    return a[0]
@c(S + r"(push_back|operator\+=)\(char\)$", "string::push_back")
def str_push(ex, st, a, ins, f): append(ex, st, a[0], 1, BStore(BUndef(), 0, a[1]), ins); return a[0]
@c(S + r".*(append|operator\+=|assign|operator=)<std::basic_string_view<char, std::char_traits<char> > >\(std::basic_string_view<char, std::char_traits<char> > const&\)$", "string::append(string_view)")
def str_app_sv(ex, st, a, ins, f):
    ex.access(st, a[1], 16, "read", ins); q, n = view_at(ex, st, a[1], ins); node = read_span(ex, st, q, n, ins)
    if re.search(r"(assign|operator=)<", demangle(f.name)): str_set(ex, st, a[0], sget(ex, st, a[0], ins), n, node)
    else: append(ex, st, a[0], n, node, ins)
    return a[0]
def str_ins(ex, st, a, pos, n, node, ins):
    s = sget(ex, st, a[0], ins); old = str_node(st, s)
    if not ex.decide(st, ule(pos, s.len)): ex.do_abort(st, "string::insert out of range", ins)
    r = BCopy(BCopy(BCopy(BUndef(), 0, pos, old, 0), pos, n, node, 0), add(pos, n), sub(s.len, pos), old, pos)
    str_set(ex, st, a[0], s, add(s.len, n), r); return a[0]
@c(S + r"insert\(unsigned long, std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&\)$", "string::insert(pos, string)")
def str_insert_s(ex, st, a, ins, f): t = sget(ex, st, a[2], ins); return str_ins(ex, st, a, a[1], t.len, str_node(st, t), ins)
@c(S + r"insert\(unsigned long, char const\*\)$", "string::insert(pos, const char*)")
def str_insert_c(ex, st, a, ins, f): n = strlen(ex, st, [a[2]], ins, f); return str_ins(ex, st, a, a[1], n, read_span(ex, st, a[2], n, ins), ins)
@c(S + r"insert\(unsigned long, char const\*, unsigned long\)$", "string::insert(pos, const char*, n)")
def str_insert_cn(ex, st, a, ins, f): return str_ins(ex, st, a, a[1], a[3], read_span(ex, st, a[2], a[3], ins), ins)
@c(S + r"pop_back\(\)$", "string::pop_back")
def str_pop(ex, st, a, ins, f): s = sget(ex, st, a[0], ins); ex.require(st, NOT(eq(s.len, 0)), "safety", "pop_back of a non-empty string", ins); resize(ex, st, a[0], sub(s.len, 1), 0, ins)
@c(S + r"swap\(", "string::swap")
def str_swap(ex, st, a, ins, f):
    s, t = sget(ex, st, a[0], ins), sget(ex, st, a[1], ins); ex.store(st, a[0], 32, t); ex.store(st, a[1], 32, s)
@c(r"^std::allocator<char>::(allocator|~allocator)\(", "std::allocator<char>")
def alloc_char(ex, st, a, ins, f): return None

# comparisons of texts: by content, decided through an uninterpreted identity where known
def bytes_equal(ex, st, n1, node1, n2, node2, id1=None, id2=None):
    """z3 condition: the two texts are equal"""
    if id1 is not None and id2 is not None: return id1 == id2
    if isc(n1) and isc(n2) and n1 != n2: return False
    k = n1 if isc(n1) else n2 if isc(n2) else None
    if k is not None and k <= 64:
        cs = [eq(n1, n2)]
        for i in range(k):
            u, _ = bread(node1, i); v, _ = bread(node2, i); cs.append(eq(u, v, 8))
        return AND(*cs)
    r = ex.sym("texteq", 1); i = z3.BitVec("i!", 64); u, _ = bread(node1, i); v, _ = bread(node2, i)
    st.pc.append(z3.Implies(r, z3.And(bv(n1, 64) == bv(n2, 64), z3.ForAll([i], z3.Implies(z3.ULT(i, bv(n1, 64)), bv(u, 8) == bv(v, 8))))))
    kk = ex.sym("differs", 64); u, _ = bread(node1, kk); v, _ = bread(node2, kk)
    st.pc.append(z3.Implies(z3.Not(r), z3.Or(bv(n1, 64) != bv(n2, 64), z3.And(z3.ULT(kk, bv(n1, 64)), bv(u, 8) != bv(v, 8)))))
    return r
class Text:
    __slots__ = ("n", "node")
    def __init__(self, n, node): self.n = n; self.node = node
def canon(ex, n, node):
    off = 0
    while True:
        if isinstance(node, BStore) and same(node.off, add(off, n)): node = node.prev; continue
        if isinstance(node, BCopy) and same(node.dst, off) and same(node.n, n): node, off = node.src, node.so; continue
        if isinstance(node, BCopy) and isc(node.dst) and node.dst == 0 and isc(node.n) and node.n == (1 << 64) - 1: node, off = node.src, add(off, node.so); continue
        return node, off
def text_eq(ex, st, x, y):
    """True, False or a condition; the facts that define it are added to st."""
    a, ao = canon(ex, x.n, x.node); b, bo = canon(ex, y.n, y.node)
    if a is b and same(ao, bo) and same(x.n, y.n): return True
    if isc(x.n) and isc(y.n):
        if x.n != y.n: return False
        if x.n == 0: return True
    # provably equal by content
    i = z3.BitVec("k!", 64); u, _ = bread(x.node, i); v, _ = bread(y.node, i)
    bad = OR(NOT(eq(x.n, y.n)), AND(ult(i, x.n), NOT(eq(u, v, 8))))
    if not ex.feasible(st, bad): return True
    t = getattr(ex, "texts", None)
    if t is None: t = ex.texts = {}
    k1 = (id(a), str(ao), str(x.n)); k2 = (id(b), str(bo), str(y.n)); k = (k1, k2) if k1 <= k2 else (k2, k1)
    if k not in t:
        d = exe.State(); r = bytes_equal(ex, d, x.n, x.node, y.n, y.node); t[k] = (r, list(d.pc), (a, b))
    r, facts, _ = t[k]
    have = {z.get_id() for z in st.pc}
    st.pc.extend(z for z in facts if z.get_id() not in have)
    return r if isc(r) else fold(r)
def text_rank(ex, st, x):
    """A number whose order is the lexicographic order of texts, known only to be a total order on contents."""
    for y, r in st.ghost.get("ranked", ()):
        if y is x or text_eq(ex, st, x, y) is True: return r
    l = getattr(ex, "ranks", None)
    if l is None: l = ex.ranks = []
    r = next((r for y, r in l if y.node is x.node and same(y.n, x.n)), None)
    if r is None: r = ex.sym("text_rank", 64); l.append((x, r))
    for y, q in st.ghost.get("ranked", ()):
        e = text_eq(ex, st, x, y); st.pc.append((r == q) == zb(e))
    st.ghost["ranked"] = st.ghost.get("ranked", ()) + ((x, r),)
    return r
def text_cmp(ex, st, x, y):
    """<0, 0 or >0"""
    if isc(x.n) and isc(y.n) and x.n == 0 and y.n == 0: return 0
    p, q = text_rank(ex, st, x), text_rank(ex, st, y)
    return z3.If(p == q, z3.BitVecVal(0, 32), z3.If(z3.ULT(p, q), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))
SS = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> > const&"
def str_text(st, s): return Text(s.len, str_node(st, s))
@c(S + r"compare\(%s\) const$" % SS, "string::compare: a total order on contents")
def str_compare(ex, st, a, ins, f): return text_cmp(ex, st, str_text(st, sget(ex, st, a[0], ins)), str_text(st, sget(ex, st, a[1], ins)))
@x("strcmp")
def strcmp_(ex, st, a, ins, f):
    n, m = strlen(ex, st, [a[0]], ins, f), strlen(ex, st, [a[1]], ins, f)
    if isinstance(n, Multi) or isinstance(m, Multi): raise Unsupported("strcmp")
    return text_cmp(ex, st, Text(n, read_span(ex, st, a[0], n, ins)), Text(m, read_span(ex, st, a[1], m, ins)))
def strid(st, s): return st.ghost.get(("strid", s.buf))
@c(r"^bool std::operator(==|!=)<char(, std::char_traits<char>, std::allocator<char> )?>\(%s, %s\)$" % (SS, SS), "string == string")
def str_eq(ex, st, a, ins, f):
    s, t = sget(ex, st, a[0], ins), sget(ex, st, a[1], ins)
    i, j = strid(st, s), strid(st, t)
    r = i == j if i is not None and j is not None else text_eq(ex, st, str_text(st, s), str_text(st, t))
    return r if "operator==" in demangle(f.name) else NOT(r)
@c(r"^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char> >\(%s, char const\*\)$" % SS, "string == const char*")
def str_eq_c(ex, st, a, ins, f):
    s = sget(ex, st, a[0], ins); n = strlen(ex, st, [a[1]], ins, f)
    r = bytes_equal(ex, st, s.len, str_node(st, s), n, read_span(ex, st, a[1], n, ins))
    return r if "operator==" in demangle(f.name) else NOT(r)
@c(r"^bool std::operator(==|!=)<char, std::char_traits<char>.*>\(std::basic_string_view<char, std::char_traits<char> >, ", "string_view == string_view")
def sv_eq(ex, st, a, ins, f):
    r = bytes_equal(ex, st, a[0], read_span(ex, st, a[1], a[0], ins), a[2], read_span(ex, st, a[3], a[2], ins))
    return r if "operator==" in demangle(f.name) else NOT(r)

# ---------------------------------------------------------------- numbers to text
@x("sprintf", "snprintf", "__sprintf_chk", "__snprintf_chk")
def sprintf(ex, st, a, ins, f):
    """Interprets the constant format: %0Nx, %0Nllx/lx, %d/%u of fixed width only where the width bounds the value; %g by its length bound."""
    dst = a[0]; k = 1; limit = None
    if "snprintf" in f.name: limit = a[1]; k = 2
    if f.name.endswith("_chk"): k += 2
    fmt = cstring(ex, st, a[k]); args = list(a[k + 1:]); pos = 0
    if limit is not None and (not isc(limit) or limit == 0): raise Unsupported("snprintf with a limit that is not known")
    out = []   # bytes (terms)
    i = 0
    while i < len(fmt):
        ch = fmt[i]
        if ch != "%": out.append(ord(ch)); i += 1; continue
        m = re.match(r"%(0?)(\d*)(ll|l|h|hh)?([xXdugL%s]+?)", fmt[i:])
        if not m: raise Unsupported("format " + fmt)
        if fmt[i + 1] == "%": out.append(37); i += 2; continue
        if fmt[i:i + 2] == "%g" or fmt[i:i + 3] == "%Lg":
            if len(out) or i + (2 if fmt[i:i + 2] == "%g" else 3) != len(fmt): raise Unsupported("format " + fmt)
            long_ = fmt[i + 1] == "L"
            # %g prints at most sign, 6 digits, point, e, sign and exponent digits; at least one character
            n = ex.sym("printf_len", 32); mx = 14 if long_ else 13
            ex.assume(st, z3.And(n >= 1, n <= mx))
            n64 = z3.ZeroExt(32, n)
            ex.nsym += 1
            src = args[0]
            if src is UNDEF: ex.require(st, False, "safety", "printf of an initialised value", ins)
            ln, at = g_text("L" if long_ else "", src)
            ex.assume(st, ln == n64)
            w = n64 if limit is None or limit > mx else z3.If(z3.UGE(n64, limit), z3.BitVecVal(limit - 1, 64), n64)
            ex.access(st, dst, add(w, 1), "sprintf output", ins, True)
            ex.put_content(st, dst.b, dst.o, add(w, 1), BStore(BArr(at), w, 0))
            return n
        zero, width, _, conv = m.groups()
        v = args[pos]; pos += 1
        bits = 64 if m.group(3) in ("l", "ll") else 32
        if v is UNDEF: ex.require(st, False, "safety", "printf of an initialised value", ins)
        if conv not in ("x", "X") or not zero or not width: raise Unsupported("format " + fmt)
        w = int(width)
        # the value must fit the width, otherwise the text would be longer
        if w * 4 < bits: ex.require(st, ult(v, 1 << (4 * w), bits), "safety", "%s value fits its width" % m.group(0), ins)
        base = 87 if conv == "x" else 55
        for d in range(w - 1, -1, -1):
            if 4 * d >= bits: out.append(48); continue
            nib = (v >> (4 * d)) & 15 if isc(v) else z3.Extract(4 * d + 3, 4 * d, v)
            if isc(nib): out.append(ord("0123456789abcdef"[nib]) if conv == "x" else ord("0123456789ABCDEF"[nib]))
            else:
                z = z3.ZeroExt(4, nib); out.append(z3.If(z3.ULT(z, 10), z + 48, z + base))
        i += len(m.group(0))
    total = len(out)
    if limit is not None: out = out[:limit - 1]
    ex.access(st, dst, len(out) + 1, "sprintf output", ins, True)
    for j, bt in enumerate(out + [0]): ex.store(st, Ptr(dst.b, add(dst.o, j)), 1, bt)
    return total

def g_text(k, v):
    """What printf %g (%Lg) prints for v: (length, byte at)."""
    B = z3.BitVecSort(64); so = v.sort() if hasattr(v, "sort") else None
    if so is None: raise Unsupported("%g of " + repr(v))
    fn_ = z3.Function("gtext%s_%s" % (k, so), so, B, z3.BitVecSort(8)); ln_ = z3.Function("gtextlen%s_%s" % (k, so), so, B)
    return ln_(v), lambda o: fn_(v, bv(o, 64))

def dec_fns(signed, bits):
    """Characters of the decimal text of a 64-bit value; non-negative values have one text, signed or not."""
    B = z3.BitVecSort(64); u = z3.Function("dec_u_at", B, B, z3.BitVecSort(8)); s = z3.Function("dec_s_at", B, B, z3.BitVecSort(8))
    return None, ((lambda v, o: z3.If(v < 0, s(v, o), u(v, o))) if signed else u)
def dec_len(ex, st, v, bits, signed):
    """Number of characters of the decimal text of a value of this type; v is extended to 64 bits."""
    if isc(v):
        v &= (1 << 64) - 1
        return len(str(v - (1 << 64) if signed and v >> 63 else v))
    v64 = bv(v, 64); B = z3.BitVecSort(64)
    u = z3.Function("dec_u_len", B, B); s = z3.Function("dec_s_len", B, B)
    mx = len(str((1 << bits - (1 if signed else 0)) - 1)) + (1 if signed else 0)
    n = s(v64) if signed else u(v64)
    if signed: ex.assume(st, z3.Or(v64 < 0, s(v64) == u(v64)))
    ex.assume(st, z3.And(z3.ULE(1, n), z3.ULE(n, mx)))
    return n

@c(r"^std::to_chars\(|^std::enable_if<.*std::to_chars_result>::type std::to_chars<|std::to_chars_result.* std::(__detail::__to_chars_i|to_chars)<", "std::to_chars(integer)")
def to_chars(ex, st, a, ins, f):
    """[charconv]: decimal text of the value, without terminator, if it fits; value_too_large otherwise."""
    d = demangle(f.name)
    m = re.search(r"\(char\*, char\*, ([a-z ]+?)(, int)?\)$", d)
    if not m: 
        m = re.search(r"(?:__to_chars_i|to_chars)<([a-z ]+)>\(", d)
    if not m: raise Unsupported("to_chars " + d)
    ty = m.group(1).strip()
    if len(a) > 3 and not (isc(a[3]) and a[3] == 10): raise Unsupported("to_chars base")
    bits = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned int": 32, "long": 64, "unsigned long": 64,
            "long long": 64, "unsigned long long": 64}[ty]
    signed = not ty.startswith("unsigned")
    v = a[2]
    if v is UNDEF: ex.require(st, False, "safety", "to_chars of an initialised value", ins)
    v = ex.sext(v, bits, 64) if signed else ex.zext(v, bits, 64)
    v64 = bv(v, 64)
    n = dec_len(ex, st, v, bits, signed)
    p, e = a[0], a[1]
    if p.b != e.b: raise Unsupported("to_chars range")
    room = sub(e.o, p.o)
    if not ex.decide(st, ule(n, room)):
        return [e, 75]        # value_too_large
    _, at = dec_fns(signed, 64)
    ex.access(st, p, n, "to_chars output", ins, True)
    ex.put_content(st, p.b, p.o, n, BArr(lambda o: at(v64, o)))
    return [Ptr(p.b, add(p.o, n)), 0]

@x("abs", "labs", "llabs")
def c_abs(ex, st, a, ins, f):
    bits = 32 if f.name == "abs" else 64
    ex.require(st, NOT(eq(a[0], 1 << (bits - 1), bits)), "safety", "abs of the minimum value", ins)
    return ite(ex.icmp_int("slt", a[0], 0, bits), sub(0, a[0], bits), a[0], bits)
@x("fabs")
def c_fabs(ex, st, a, ins, f): return ex.fabs(a[0])

# ---------------------------------------------------------------- runtime
@x("__cxa_guard_acquire")
def guard_acquire(ex, st, a, ins, f):
    v = ex.load(st, a[0], 1, "i"); return 0 if isc(v) and v else 1
@x("__cxa_guard_release")
def guard_release(ex, st, a, ins, f): ex.store(st, a[0], 1, 1)
@x("__cxa_atexit", "__cxa_thread_atexit")
def atexit(ex, st, a, ins, f): return 0
@x("__libc_single_threaded")
def lst(ex, st, a, ins, f): return 0

def install(ex):
    ex.contracts.extend(TABLE); ex.exact.update(EXACT); ex.abort_hook = abort_hook
