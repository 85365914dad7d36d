"""Contracts of FILE streams [C17 7.21]: a stream is the sequence of bytes written to it; every operation may fail."""
from .stdc import *
from . import threads

class S(Obj):
    """One stream (immutable)."""
    __slots__ = ("open", "n", "node", "flushed", "ops", "closed", "path", "mode", "src", "ent")
    def __init__(self, open=True, n=0, node=None, flushed=True, ops=(), closed=0, path=None, mode=None, src=None, ent=None):
        self.src = src; self.ent = ent; self.open = open; self.n = n; self.node = node or BUndef(); self.flushed = flushed; self.ops = ops; self.closed = closed; self.path = path; self.mode = mode
    def w(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}; d.update(k); return S(**d)
    def same(self, o): return self is o or isinstance(o, S) and same(self.n, o.n) and all(getattr(self, s) is getattr(o, s) or getattr(self, s) == getattr(o, s) for s in self.__slots__ if s not in ("n",))
    def havoc(self, ex, st, key):
        """In a loop: anything may have been written so far."""
        from .loops import Var
        n = ex.sym("lv_written", 64); ex.nsym += 1
        f = z3.Function("lv_out!%d" % ex.nsym, z3.BitVecSort(64), z3.BitVecSort(8)); d = z3.Function("lv_outdef!%d" % ex.nsym, z3.BitVecSort(64), z3.BoolSort())
        node = BArrD(f, d)
        v1 = Var("len", key, 64, self.n, n); v1.obj = lambda ex, st, x: self.check(x).n
        v2 = Var("region", key, 8, self.node, node); v2.obj = lambda ex, st, x: x.node
        return self.w(n=n, node=node, flushed=None, ops=None), [v1, v2]
    def check(self, x):
        if x.open != self.open or x.closed != self.closed: raise Unsupported("a loop opens or closes a stream")
        return x
    def resym(self, st, val, v): return self.w(n=val) if v.kind == "len" else self.w(node=val)

def new_stream(ex, st, **k):
    b = ex.new_blk(st, "extern", 216, "FILE"); st.ghost[("file", b.id)] = S(**k); return Ptr(b.id, 0)
def get(ex, st, p, ins, what):
    p = ex.as_ptr(p)
    if isinstance(p, Ptr) and p.b == 0 or not isinstance(p, Ptr): ex.require(st, False, "safety", what + " on a stream, not null", ins)
    s = st.ghost.get(("file", p.b))
    if s is None:
        if st.mem[p.b].kind == "extern" or "std" in st.mem[p.b].name: raise Unsupported("stream " + st.mem[p.b].name)
        ex.require(st, False, "safety", what + " on a stream", ins)
    if not s.open: ex.require(st, False, "safety", what + " on an open stream", ins)
    return p.b, s
def fail(ex, st, lab):
    if "expect" in st.ghost: st.ghost["expect"] = (True, lab)
def either(ex, st, what, ok, bad):
    """The operation succeeds or fails."""
    o = st.fork(); b = ex.sym("fails_" + what, 1)
    ex.assume(st, z3.Not(b)); ex.assume(o, b)
    return Multi([(st, ok(st)), (o, bad(o))])
def section(st):
    h = threads.held(st)
    return tuple(sorted((k[1], k[2], st.ghost.get(("ms",) + k[1:], 0)) for k in h))
def append(ex, st, bid, s, n, node):
    st.ghost[("file", bid)] = s.w(n=add(s.n, n), node=BCopy(s.node, s.n, n, node, 0), flushed=False, ops=None if s.ops is None else s.ops + (section(st),))

@x("fwrite", "fwrite_unlocked")
def fwrite(ex, st, a, ins, f):
    bid, s = get(ex, st, a[3], ins, "fwrite")
    size, cnt = a[1], a[2]
    if isc(cnt) and cnt == 1: cnt = size; size = 1; one = True
    else: one = False
    if size != 1: raise Unsupported("fwrite of wide elements")
    total = cnt
    node = read_span(ex, st, a[0], total, ins)
    if isc(total) and total == 0 or (not isc(total) and ex.decide(st, eq(total, 0))): return 0
    written_defined(ex, st, node, total, ins)
    def ok(t): append(ex, t, bid, s, total, node); return 1 if one else cnt
    def bad(t):
        r = ex.sym("fwrite_n", 64); ex.assume(t, ult(r, cnt)); append(ex, t, bid, s, r, node); fail(ex, t, "a failing write aborts"); return 0 if one else r
    return either(ex, st, "fwrite", ok, bad)
def written_defined(ex, st, node, n, ins):
    k = ex.sym("w_at", 64)
    v, d = bread(node, k)
    if not (isc(d) and d): ex.require(st, OR(NOT(ult(k, n)), d), "safety", "written bytes are initialised", ins)
@x("fputc", "putc", "_IO_putc", "fputc_unlocked", "putc_unlocked")
def fputc(ex, st, a, ins, f):
    bid, s = get(ex, st, a[1], ins, "fputc")
    ch = a[0] & 255 if isc(a[0]) else z3.Extract(7, 0, a[0])
    def ok(t): append(ex, t, bid, s, 1, BStore(BUndef(), 0, ch)); return ch if isc(ch) else z3.ZeroExt(24, ch)
    def bad(t): fail(ex, t, "a failing write aborts"); return (1 << 32) - 1
    return either(ex, st, "fputc", ok, bad)
@x("fputs", "fputs_unlocked")
def fputs(ex, st, a, ins, f):
    bid, s = get(ex, st, a[1], ins, "fputs")
    n = strlen(ex, st, [a[0]], ins, f); node = read_span(ex, st, a[0], n, ins)
    def ok(t): append(ex, t, bid, s, n, node); return 1
    def bad(t):
        r = ex.sym("fputs_n", 64); ex.assume(t, ule(r, n)); append(ex, t, bid, s, r, node); fail(ex, t, "a failing write aborts"); return (1 << 32) - 1
    return either(ex, st, "fputs", ok, bad)
@x("fflush", "fflush_unlocked")
def fflush(ex, st, a, ins, f):
    p = ex.as_ptr(a[0])
    if isinstance(p, Ptr) and p.b == 0:
        for k, s in list(st.ghost.items()):
            if isinstance(k, tuple) and k[0] == "file" and s.open: st.ghost[k] = s.w(flushed=True)
        return 0
    bid, s = get(ex, st, a[0], ins, "fflush")
    def ok(t): t.ghost[("file", bid)] = s.w(flushed=True); return 0
    def bad(t): fail(ex, t, "a failing flush aborts"); return (1 << 32) - 1
    return either(ex, st, "fflush", ok, bad)
@x("fclose")
def fclose(ex, st, a, ins, f):
    bid, s = get(ex, st, a[0], ins, "fclose")
    st.ghost[("file", bid)] = s.w(open=False, closed=s.closed + 1)
    def bad(t): return (1 << 32) - 1
    return either(ex, st, "fclose", lambda t: 0, bad)
@x("ferror", "ferror_unlocked")
def ferror(ex, st, a, ins, f): get(ex, st, a[0], ins, "ferror"); raise Unsupported("ferror")
@x("fopen", "fopen64")
def fopen(ex, st, a, ins, f):
    n = strlen(ex, st, [a[0]], ins, f); node = read_span(ex, st, a[0], n, ins); mode = cstring(ex, st, a[1])
    st.ghost["fopens"] = st.ghost.get("fopens", 0) + 1
    def ok(t): p = new_stream(ex, t, path=(n, node), mode=mode); t.ghost["last_opened"] = p.b; return p
    return either(ex, st, "fopen", ok, lambda t: Ptr(0, 0))

# ---- ghosts of the harnesses
@x("verif_stream")
def g_stream(ex, st, a, ins, f): return new_stream(ex, st)
@x("verif_opened")
def g_opened(ex, st, a, ins, f): b = st.ghost.get("last_opened"); return Ptr(b, 0) if b else Ptr(0, 0)
@x("verif_opens")
def g_opens(ex, st, a, ins, f): return st.ghost.get("fopens", 0)
def gs(st, p): return st.ghost[("file", p.b)]
@x("verif_out_size")
def g_size(ex, st, a, ins, f): return gs(st, a[0]).n
@x("verif_out_byte")
def g_byte(ex, st, a, ins, f):
    v, d = bread(gs(st, a[0]).node, a[1]); return v
@x("verif_out_flushed")
def g_flushed(ex, st, a, ins, f):
    if gs(st, a[0]).flushed is None: raise Unsupported("whether a loop flushes")
    return bool(gs(st, a[0]).flushed)
@x("verif_out_closed")
def g_closed(ex, st, a, ins, f): return gs(st, a[0]).closed
@x("verif_out_reset")
def g_reset(ex, st, a, ins, f): s = gs(st, a[0]); st.ghost[("file", a[0].b)] = s.w(n=0, node=None, flushed=True, ops=())
@x("verif_out_unit")
def g_unit(ex, st, a, ins, f):
    """The writes since the reset were made in one call, or in one critical section of a mutex which other threads can reach.
    Returns a number naming the mutex (0: none needed, -1: not one unit)."""
    ops = gs(st, a[0]).ops
    if ops is None: raise Unsupported("writes in a loop")
    common = set(ops[0]) if ops else set()
    for o in ops[1:]: common &= set(o)
    common = [k for k in common if st.mem[k[0]].kind not in ("stack", "alloca")]
    if len(ops) <= 1: return 0
    if not common: return (1 << 64) - 1
    b, o, _ = min(common); return (b << 20) + o
@x("verif_path_size")
def g_psize(ex, st, a, ins, f): return gs(st, a[0]).path[0]
@x("verif_path_byte")
def g_pbyte(ex, st, a, ins, f): return bread(gs(st, a[0]).path[1], a[1])[0]
