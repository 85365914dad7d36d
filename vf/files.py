"""Contracts of files: reading streams, and the file system as a set of named files (for one process of many; every operation may fail)."""
from .stdc import *
from . import stdio, rand
from .stdio import get, either, S
from .loops import LoopSpec

def fault(st, k): st.ghost["faults"] = st.ghost.get("faults", 0) | k
OPEN, READ, WRITE, CLOSE, RENAME, REMOVE = 1, 2, 4, 8, 16, 32

# ---- named files.  An entry: path, content (None: unknown; "old"; (stream, complete)), own (created by the verified call)
class Ent(Obj):
    __slots__ = ("n", "node", "exists", "content", "own", "target")
    def __init__(self, n, node, exists=None, content=None, own=False, target=False):
        self.n = n; self.node = node; self.exists = exists; self.content = content; self.own = own; self.target = target
    def w(self, **k):
        d = {s: getattr(self, s) for s in self.__slots__}; d.update(k); return Ent(**d)
    def same(self, o): return self is o or isinstance(o, Ent) and all(getattr(self, s) is getattr(o, s) or same(getattr(self, s), getattr(o, s)) for s in self.__slots__)
def fs(st): return st.ghost.get("fs", ())
def put(st, i, e): l = list(fs(st)); l[i] = e; st.ghost["fs"] = tuple(l)
def path_of(ex, st, p, ins):
    """A C string or a std::filesystem::path."""
    o = st.mem[p.b].cells.get(p.o) if isc(p.o) else None
    if o is not None and isinstance(o[1], Str): return o[1].len, str_node(st, o[1])
    n = strlen(ex, st, [p], ins, None); return n, read_span(ex, st, p, n, ins)
def lookup(ex, st, n, node):
    """Index of the file of this name; a new entry if there is none."""
    for i, e in enumerate(fs(st)):
        same_len = eq(n, e.n)
        if not ex.feasible(st, same_len): continue
        if not isc(same_len) and ex._check(st.pc, zb(NOT(same_len)))[0] != z3.unsat:
            raise Unsupported("names of files which may be equal")
        k = ex.sym("name_at", 64); u, v = bread(node, k)[0], bread(e.node, k)[0]
        if ex._check(st.pc, zb(AND(ult(k, n), NOT(eq(u, v, 8)))))[0] == z3.unsat: return i
        raise Unsupported("names of files which may be equal")
    st.ghost["fs"] = fs(st) + (Ent(n, node),); return len(fs(st)) - 1
STEP = "the target holds its previous content or the complete new data at every point"
def target_changes(ex, st, e, ins, content=None):
    """The named file gets this content at this point."""
    if not e.target: return
    if not ex.discover: ex.reached[STEP] = ex.reached.get(STEP, 0) + 1
    d = st.ghost["fs_data"]
    if content is None or content == "old" or not content[1]: ex.require(st, False, "post", STEP, ins)
    s = st.ghost[("file", content[0])]; content = s.n, s.node
    ex.require(st, eq(content[0], d[0]), "post", STEP, ins)
    k = next((t[2] for t in st.ghost["inputs"] if t[1] == "index"), None)
    if k is None: k = ex.sym("data_at", 64)
    v, df = bread(content[1], k); u, _ = bread(d[1], k)
    ex.require(st, OR(NOT(ult(k, d[0])), AND(df, eq(v, u, 8))), "post", STEP, ins)

@x("fopen", "fopen64")
def fopen(ex, st, a, ins, f):
    n, node = path_of(ex, st, a[0], ins); mode = cstring(ex, st, a[1]); st.ghost.setdefault("faults", 0)
    st.ghost["fopens"] = st.ghost.get("fopens", 0) + 1; st.ghost["last_opened"] = 0; st.ghost["last_mode"] = mode
    i = lookup(ex, st, n, node)
    if "+" in mode or mode[0] not in "rw": raise Unsupported("fopen mode " + mode)
    def ok(t):
        e = fs(t)[i]
        if mode[0] == "w":
            if "x" in mode and e.exists is True: raise PathEnd()
            target_changes(ex, t, e, ins)
            p = stdio.new_stream(ex, t, path=(n, node), mode=mode, ent=i); ex.store(t, Ptr(p.b, 16), 8, 0)
            put(t, i, e.w(exists=True, content=(p.b, False), own=True))
        else:
            ex.nsym += 1; N = ex.sym("file_size", 64); ex.assume(t, ule(N, 1 << 40)); fn = z3.Function("file_at!%d" % ex.nsym, z3.BitVecSort(64), z3.BitVecSort(8))
            p = stdio.new_stream(ex, t, path=(n, node), mode=mode, src=(N, BArr(lambda o: fn(bv(o, 64)))), ent=i)
            for o in (0, 8, 16): ex.store(t, Ptr(p.b, o), 8, 0)
        t.ghost["last_opened"] = p.b; return p
    def bad(t): fault(t, OPEN); return Ptr(0, 0)
    return Multi(both(ex, st, "fopen", ok, bad))
def both(ex, st, what, ok, bad):
    o = st.fork(); b = ex.sym("fails_" + what, 1); out = []
    ex.assume(st, z3.Not(b)); ex.assume(o, b)
    for t, g in ((st, ok), (o, bad)):
        try: out.append((t, g(t)))
        except PathEnd: pass
    return out

def reading(ex, st, p, ins, what):
    bid, s = get(ex, st, p, ins, what)
    return bid, s, (ex.load(st, Ptr(bid, 0), 8, "i"), ex.load(st, Ptr(bid, 8), 8, "i"), ex.load(st, Ptr(bid, 16), 8, "i")) if s.src is not None else None
@x("fread", "fread_unlocked")
def fread(ex, st, a, ins, f):
    """Reads as many bytes as asked for; fewer only at the end of the file (sets the end indicator) or on an error (sets the error indicator)."""
    bid, s, v = reading(ex, st, a[3], ins, "fread")
    if v is None: raise Unsupported("fread from an output stream")
    if a[1] != 1: raise Unsupported("fread of wide elements")
    n = a[2]; pos, eof, err = v; N, node = s.src
    ex.access(st, a[0], n, "fread output", ins, True)
    rest = ite(eq(eof, 0), sub(N, pos), 0, 64); out = []
    def got(t, r):
        if not (isc(r) and r == 0): ex.put_content(t, a[0].b, a[0].o, r, shifted(node, pos))
        ex.store(t, Ptr(bid, 0), 8, add(pos, r)); return r
    full = ule(n, rest); x1 = st.fork(); x2 = st.fork(); x3 = st; b = ex.sym("fails_fread", 1)
    if ex.feasible(x1, full): ex.assume(x1, AND(full, z3.Not(b))); out.append((x1, got(x1, n)))
    if ex.feasible(x2, NOT(full)):
        ex.assume(x2, AND(NOT(full), z3.Not(b))); out.append((x2, got(x2, rest))); ex.store(x2, Ptr(bid, 8), 8, 1)
    r = ex.sym("fread_n", 64); ex.assume(x3, AND(b, ult(r, n))); ex.assume(x3, ule(r, rest)); out.append((x3, got(x3, r))); ex.store(x3, Ptr(bid, 16), 8, 1)
    return Multi(out)
@x("fgetc", "getc")
def fgetc(ex, st, a, ins, f): raise Unsupported("fgetc")
@x("feof", "feof_unlocked")
def feof(ex, st, a, ins, f):
    bid, s, v = reading(ex, st, a[0], ins, "feof"); return 0 if v is None else cut32(v[1])
@x("ferror", "ferror_unlocked")
def ferror(ex, st, a, ins, f):
    bid, s = get(ex, st, a[0], ins, "ferror"); return cut32(ex.load(st, Ptr(bid, 16), 8, "i"))
def cut32(v): return v & 0xffffffff if isc(v) else z3.Extract(31, 0, v)
for nm in ("fwrite", "fputc", "fputs", "fflush"):
    def wrap(old, nm):
        def g(ex, st, a, ins, f):
            if nm == "fflush" and isinstance(a[0], Ptr) and a[0].b == 0: raise Unsupported("fflush(NULL)")
            k = {"fwrite": 3, "fputc": 1, "fputs": 1, "fflush": 0}[nm]; p = ex.as_ptr(a[k]); before = st.ghost.get(("file", p.b))
            r = old(ex, st, a, ins, f); out = []
            for t, v in (r if isinstance(r, Multi) else [(st, r)]):
                s = t.ghost[("file", p.b)]
                bad = (isc(v) and v == (1 << 32) - 1) if nm != "fwrite" else ex.feasible(t, NOT(eq(v, a[2])))
                if bad:
                    fault(t, WRITE)
                    if s.ent is not None: ex.store(t, Ptr(p.b, 16), 8, 1)
                if s.ent is not None:
                    e = fs(t)[s.ent]; done = nm == "fflush" and not bad
                    if not (e.content is not None and e.content != "old" and e.content[1] == done): put(t, s.ent, e.w(content=(p.b, done)))
                out.append((t, v))
            return Multi(out)
        return g
    for al in (nm, nm + "_unlocked"):
        if al in EXACT:
            EXACT[al] = wrap(EXACT[al], nm); EXACT[al].cname = nm
@x("fclose")
def fclose(ex, st, a, ins, f):
    bid, s = get(ex, st, a[0], ins, "fclose")
    st.ghost[("file", bid)] = s.w(open=False, closed=s.closed + 1)
    def ok(t):
        if s.ent is not None and s.src is None: put(t, s.ent, fs(t)[s.ent].w(content=(bid, True)))
        return 0
    def bad(t): fault(t, CLOSE); return (1 << 32) - 1
    return Multi(both(ex, st, "fclose", ok, bad))
@x("fileno", "fileno_unlocked")
def fileno(ex, st, a, ins, f): get(ex, st, a[0], ins, "fileno"); return 7
@x("fsync", "fdatasync")
def fsync(ex, st, a, ins, f):
    def bad(t): fault(t, WRITE); return (1 << 32) - 1
    return Multi(both(ex, st, "fsync", lambda t: 0, bad))
@x("setvbuf", "setbuf")
def setvbuf(ex, st, a, ins, f): return 0

# ---- contracts of Guid, proved in C04
def guid_contracts():
    @c(r"^rst::Guid::Guid\(\)$", "rst::Guid() (contract proved in C04)")
    def guid_ctor(ex, st, a, ins, f):
        ex.access(st, a[0], 16, "Guid", ins, True)
        for o in (0, 8):
            v = ex.sym("guid", 64); add_input(st, "i", "random word", v); ex.store(st, Ptr(a[0].b, add(a[0].o, o)), 8, v)
    @c(r"^rst::Guid::AsStringView\(\) const$", "rst::Guid::AsStringView: 36 characters of a GUID, a function of its bits (contract proved in C04)")
    def guid_text(ex, st, a, ins, f):
        B = z3.BitVecSort(64); g = z3.Function("guid_text", B, B, B, z3.BitVecSort(8))
        u, v = (bv(ex.load(st, Ptr(a[1].b, add(a[1].o, o)), 8, "i"), 64) for o in (0, 8))
        ex.access(st, a[0], 37, "text of a Guid", ins, True)
        t = lambda o: g(u, v, bv(o, 64))
        ex.put_content(st, a[0].b, a[0].o, 37, BStore(BArr(lambda o: z3.If(z3.Or(t(o) == 0, t(o) == 47), z3.BitVecVal(45, 8), t(o))), 36, 0))

# ---- names and the file system
FSN = r"^std::filesystem::(__cxx11::)?"
@c(FSN + r"path::_List::(_List\(|~_List\()", "std::filesystem::path's component list")
def list_ctor(ex, st, a, ins, f):
    if "~" not in demangle(f.name): ex.store(st, a[0], 8, NULL)
@c(FSN + r"path::_List::operator=\(", "std::filesystem::path's component list")
def list_set(ex, st, a, ins, f): return a[0]
@c(FSN + r"path::_M_split_cmpts\(\)$", "std::filesystem::path's component list")
def split(ex, st, a, ins, f): return None
@c(FSN + r"path::_List::_Impl_deleter::operator\(\)", "std::filesystem::path's component list")
def impl_del(ex, st, a, ins, f): return None
@c(FSN + r"path::(operator\+=|concat|_M_concat)\(", "std::filesystem::path::operator+=")
def path_add(ex, st, a, ins, f):
    d = demangle(f.name)
    if "basic_string_view" in d:
        n = a[1]; node = read_span(ex, st, a[2], n, ins)
    elif re.search(r"\((char const\*|std::filesystem::.*path const&|std::__cxx11::basic_string.* const&)\)$", d): n, node = path_of(ex, st, a[1], ins)
    else: raise Unsupported(d)
    from .stdc import append
    append(ex, st, a[0], n, node, ins); return a[0]
@c(r"^std::_V2::(system|generic)_category\(\)$", "error categories")
def category(ex, st, a, ins, f):
    b = st.ghost.get("category")
    if b is None: b = st.ghost["category"] = ex.new_blk(st, "extern", 8, "error category").id
    return Ptr(b, 0)
def set_ec(ex, st, p, bad):
    if p is None:
        if bad: raise Unsupported("a throwing file-system call")
        return
    v = 0
    if bad: v = ex.sym("errno", 32); ex.assume(st, NOT(eq(v, 0, 32)))
    ex.store(st, p, 4, v); ex.store(st, Ptr(p.b, add(p.o, 8)), 8, category(ex, st, [], None, None))
@c(FSN + r"file_size\(std::filesystem::.*path const&, std::error_code&\)$", "std::filesystem::file_size (any size, or an error)")
def file_size(ex, st, a, ins, f):
    path_of(ex, st, a[0], ins)
    def ok(t): v = ex.sym("reported_size", 64); ex.assume(t, ule(v, 1 << 40)); set_ec(ex, t, a[1], False); return v
    def bad(t): set_ec(ex, t, a[1], True); return (1 << 64) - 1
    return Multi(both(ex, st, "file_size", ok, bad))
def do_rename(ex, st, a, ins, good, err):
    (n, node), (m, mode) = path_of(ex, st, a[0], ins), path_of(ex, st, a[1], ins)
    i = lookup(ex, st, n, node); j = lookup(ex, st, m, mode)
    def ok(t):
        e, g = fs(t)[i], fs(t)[j]
        if i == j: return good(t)
        if e.exists is False: raise PathEnd()
        target_changes(ex, t, e, ins); target_changes(ex, t, g, ins, e.content)
        put(t, j, g.w(exists=True, content=e.content, own=e.own and not g.target)); put(t, i, e.w(exists=False, content=None, own=False))
        if g.target: t.ghost["fs_replaced"] = 1
        return good(t)
    def bad(t): fault(t, RENAME); return err(t)
    return Multi(both(ex, st, "rename", ok, bad))
@c(FSN + r"rename\(std::filesystem::.*path const&, std::filesystem::.*path const&, std::error_code&\)$", "std::filesystem::rename (replaces the target atomically, or fails and changes nothing)")
def fs_rename(ex, st, a, ins, f): return do_rename(ex, st, a, ins, lambda t: set_ec(ex, t, a[2], False), lambda t: set_ec(ex, t, a[2], True))
@x("rename")
def c_rename(ex, st, a, ins, f): return do_rename(ex, st, a, ins, lambda t: 0, lambda t: (1 << 32) - 1)
def do_remove(ex, st, a, ins, good, err, absent):
    n, node = path_of(ex, st, a[0], ins); i = lookup(ex, st, n, node)
    if fs(st)[i].exists is False: return absent(st)
    def ok(t):
        e = fs(t)[i]; target_changes(ex, t, e, ins); put(t, i, e.w(exists=False, content=None, own=False)); return good(t)
    def bad(t): fault(t, REMOVE); put(t, i, fs(t)[i].w(own=False)); return err(t)
    return Multi(both(ex, st, "remove", ok, bad))
def _t(v, t, ex, p, bad): set_ec(ex, t, p, bad); return v
@c(FSN + r"remove\(std::filesystem::.*path const&, std::error_code&\)$", "std::filesystem::remove")
def fs_remove(ex, st, a, ins, f): return do_remove(ex, st, a, ins, lambda t: _t(True, t, ex, a[1], False), lambda t: _t(False, t, ex, a[1], True), lambda t: _t(False, t, ex, a[1], False))
@x("remove", "unlink")
def c_remove(ex, st, a, ins, f): return do_remove(ex, st, a, ins, lambda t: 0, lambda t: (1 << 32) - 1, lambda t: (1 << 32) - 1)
@c(FSN + r"exists\(std::filesystem::.*path const&(, std::error_code&)?\)$", "std::filesystem::exists")
def fs_exists(ex, st, a, ins, f): raise Unsupported("filesystem::exists")

# ---- ghosts
@x("verif_faults")
def g_faults(ex, st, a, ins, f):
    r = st.ghost.get("faults", 0)
    if not isc(r) and r.size() == 64: r = z3.Extract(31, 0, r)
    for k, s in st.ghost.items():
        if isinstance(k, tuple) and k[0] == "file" and s.src is not None: r = ite(eq(ex.load(st, Ptr(k[1], 16), 8, "i"), 0), r, r | READ if isc(r) else r | READ, 32)
    return r
@x("verif_mode_writes")
def g_mode(ex, st, a, ins, f): return st.ghost[("file", a[0].b)].mode.startswith("w")
@x("verif_in_size")
def g_in_size(ex, st, a, ins, f): return st.ghost[("file", a[0].b)].src[0]
@x("verif_in_byte")
def g_in_byte(ex, st, a, ins, f): return bread(st.ghost[("file", a[0].b)].src[1], a[1])[0]
@x("verif_watch")
def g_watch(ex, st, a, ins, f):
    """verif_watch(path, data, n): the file of this name may only become the n bytes at data."""
    n, node = path_of(ex, st, a[0], ins); st.ghost["fs"] = (Ent(n, node, content="old", target=True),); st.ghost["fs_data"] = (a[2], read_span(ex, st, a[1], a[2], ins)); st.ghost["fs_replaced"] = 0
@x("verif_replaced")
def g_replaced(ex, st, a, ins, f): return bool(st.ghost["fs_replaced"])
@x("verif_left_behind")
def g_left(ex, st, a, ins, f): return sum(1 for e in fs(st) if e.own and not e.target)

# ---- the loops of reading: everything read so far is the beginning of the file
def read_cands(cx):
    out = []; b = cx.st.ghost.get("last_opened")
    if not b: return out
    s = cx.st.ghost[("file", b)]; q0 = next((t[2] for t in cx.st.ghost["inputs"] if t[1] == "index"), None)
    if s.src is None:
        # writing: everything written so far is the beginning of the data
        vs = [v for v in cx.vars if v.kind in ("int", "len", "ptr") and v.bits == 64]; d = next((t for t in cx.st.ghost["inputs"] if t[1] == "data"), None)
        for v in cx.vars:
            if v.kind == "ghost" and v.key == ("G", "faults"): out.append(("only writes fail", lambda get, it, v=v: bv(get(v), v.bits) & ~4 == bv(v.entry, v.bits) & ~4))
        for v in vs:
            for w in vs:
                if v is not w and v.key[0] == "G": out.append(("%r - %r unchanged" % (v, w), lambda get, it, v=v, w=w: bv(get(v), 64) - bv(get(w), 64) == bv(v.entry, 64) - bv(w.entry, 64)))
                if v is not w and v.key[0] == "G": out.append(("%r + %r unchanged" % (v, w), lambda get, it, v=v, w=w: bv(get(v), 64) + bv(get(w), 64) == bv(v.entry, 64) + bv(w.entry, 64)))
            if d is not None and v.key[0] == "G":
                out.append(("%r <= size of the data" % v, lambda get, it, v=v: z3.ULE(bv(get(v), 64), bv(d[2], 64))))
                for w in cx.vars:
                    if w.kind != "region" or w.key != v.key or q0 is None: continue
                    def cand(get, it, v=v, w=w):
                        x, df = bread(get(w), q0); return IMP(ult(q0, bv(get(v), 64)), AND(df, eq(x, d[3](bv(q0, 64)), 8)))
                    out.append(("written so far %r" % w, cand))
        return out
    N, node = s.src; q = next((t[2] for t in cx.st.ghost["inputs"] if t[1] == "index"), None)
    vs = [v for v in cx.vars if v.kind in ("int", "len", "ptr") and v.bits == 64]
    at = lambda o: next((v for v in vs if v.key[0] == "C" and v.key[1] == b and v.key[2] == o), None)
    pos, eof, err = at(0), at(8), at(16)
    if pos is None: return out
    stop = lambda get: z3.Or(*([bv(get(v), 64) != 0 for v in (eof, err) if v is not None] or [z3.BoolVal(False)]))
    for v in vs:
        if v is pos: continue
        out.append(("%r == position" % v, lambda get, it, v=v: bv(get(v), 64) == bv(get(pos), 64)))
        out.append(("%r == position or stopped" % v, lambda get, it, v=v: z3.Or(stop(get), bv(get(v), 64) == bv(get(pos), 64))))
        out.append(("position <= %r" % v, lambda get, it, v=v: z3.ULE(bv(get(pos), 64), bv(get(v), 64))))
        out.append(("%r <= position" % v, lambda get, it, v=v: z3.ULE(bv(get(v), 64), bv(get(pos), 64))))
    out.append(("position <= size", lambda get, it: z3.ULE(bv(get(pos), 64), bv(N, 64))))
    for v in (eof, err):
        if v is not None: out.append(("flag", lambda get, it, v=v: z3.ULE(bv(get(v), 64), 1)))
    if eof is not None: out.append(("at the end of the file", lambda get, it: z3.Implies(bv(get(eof), 64) != 0, bv(get(pos), 64) == bv(N, 64))))
    if q is not None:
        for v in cx.vars:
            if v.kind != "region": continue
            def cand(get, it, v=v):
                u, d = bread(get(v), q); w, _ = bread(node, q)
                return IMP(ult(q, bv(get(pos), 64)), AND(d, eq(u, w, 8)))
            out.append(("read so far %r" % v, cand))
    return out
LOOP = LoopSpec(read_cands, auto=False)
