"""Loops by invariant: the modified locations are discovered, invariants are inferred (Houdini) from generic and
property-given candidates, and the body is then verified once from any state satisfying them."""
import z3
from .sym import *
from .exe import Frame, F64, F32, as_bool_ite
from . import exe as _exe

class Var:
    """A location modified by the loop. kind: int, ptr (its offset), fp, region, len (of a Str), buf (content of a Str), ghost, undef"""
    __slots__ = ("kind", "key", "bits", "entry", "sym", "block", "name", "delta", "obj")
    def __init__(self, kind, key, bits, entry, sym, block=None):
        self.kind = kind; self.key = key; self.bits = bits; self.entry = entry; self.sym = sym; self.block = block; self.delta = None; self.obj = None
    def __repr__(self): return "%s%s" % (self.kind, self.key)

class Ctx:
    """What a candidate generator sees: ex, entry state, vars, iteration counter `it`."""

class LoopSpec:
    def __init__(self, cands=None, facts=None, bounds=None, name="", auto=True, split=False, tail=None, quick=False):
        self.quick = quick      # loops within loops: no invariants while the outer loop's variables are looked for; candidates that failed before are not tried again
        self.tail = tail        # the rest of the loop is a call of the function itself (see tail())
        self.split = split      # keep the paths through the body apart
        self.cands = cands; self.facts = facts; self.bounds = bounds; self.name = name; self.auto = auto

def node_of(b):
    """Whole content of a block without cells, as a node."""
    if len(b.regs) == 1 and same(b.regs[0][0], 0) and same(b.regs[0][1], b.size): return b.regs[0][2]
    if not b.regs: return BUndef()
    n = BUndef()
    for r in b.regs: n = BCopy(n, r[0], r[1], r[2], 0)
    return n

def classify(v):
    if v is UNDEF or isinstance(v, MaybeUndef): return "undef"
    if isinstance(v, Ptr): return "ptr"
    if isinstance(v, PInt): return "pint"
    if isinstance(v, z3.FPRef): return "fp"
    if isinstance(v, Obj): return "obj"
    return "int"

def owns(st, m, bid):
    b = st.mem.get(m[1]); cell = b.cells.get(m[2]) if b is not None else None
    return cell is not None and getattr(cell[1], "buf", None) == bid
def grown(base, st, bid):
    """The container that owns this block has another size."""
    for k, b in base.mem.items():
        for o, (n, v) in b.cells.items():
            if getattr(v, "blk", None) == bid:
                w = st.mem[k].cells.get(o) if k in st.mem else None
                return w is not None and type(w[1]) is type(v) and not v.same(w[1])
    return False
def diff(ex, base, st, mods):
    """Add to mods the locations where st differs from base. Returns True if something new."""
    new = False
    def put(k, v=True):
        nonlocal new
        if k not in mods: mods[k] = v; new = True
    for bid, b in base.mem.items():
        c = st.mem.get(bid)
        if c is b: continue
        if c is None: raise Unsupported("a local of an outer scope ends in a loop")
        if b.kind in ("strbuf", "vecbuf") and (b.alive != c.alive): continue       # owned by a Str or Vec, handled there
        if b.alive != c.alive: raise Unsupported("a loop frees an outer object")
        if c.arr is not b.arr and not (b.arr is not None and c.arr is not None and b.arr.same(c.arr)) and not (b.kind == "vecbuf" and grown(base, st, bid)): raise Unsupported("ghost array changed in a loop")
        if b.kind == "strbuf" or (b.regs != c.regs and not b.cells and not c.cells):
            if len(b.regs) != len(c.regs) or any(x[2] is not y[2] or not same(x[0], y[0]) or not same(x[1], y[1]) for x, y in zip(b.regs, c.regs)):
                if b.kind == "strbuf" and any(m[0] == "C" and owns(base, m, bid) for m in mods): continue      # part of a string which is modified already
                put(("R", bid))
            continue
        for o in b.cells.keys() | c.cells.keys():
            x, y = b.cells.get(o), c.cells.get(o)
            if x is not None and y is not None and x[0] == y[0] and (x[1] is y[1] or same(x[1], y[1])): continue
            n = (x or y)[0]
            if x is not None and y is not None and x[0] != y[0]: raise Unsupported("cell size changes in a loop")
            put(("C", bid, o, n))
        if len(b.regs) != len(c.regs) or any(p[2] is not q[2] for p, q in zip(b.regs, c.regs)): put(("X", bid))
    for k in base.ghost.keys() | st.ghost.keys():
        if k in ("inputs", "expect"): continue
        if isinstance(k, tuple) and k[0] in ("strid", "cstr") and k[1] not in base.mem: continue     # of an object of this iteration
        x, y = base.ghost.get(k), st.ghost.get(k)
        if x is y or same(x, y): continue
        put(("G", k))
    return new

def havoc(ex, fn, h, fr, mods, it):
    """A header frame where the modified locations have arbitrary values. -> (frame, vars)"""
    st = fr.st.fork(); vs = []; regs = dict(fr.regs)
    def fresh(bits, nm): return ex.sym("lv_" + nm, bits)
    for m in sorted(mods, key=str):
        if m[0] == "C":
            _, bid, o, n = m; b = st.wblk(bid); cell = b.cells.get(o)
            v = cell[1] if cell is not None and cell[0] == n else None
            if v is None and ex.region_of(b, o, n) is not None: v = ex.bytes_read(st, ex.region_of(b, o, n)[2], sub(o, ex.region_of(b, o, n)[0]), n)
            k = classify(v) if v is not None else "undef"
            if k == "undef":
                b.cells[o] = (n, UNDEF); continue
            if k == "int":
                s = fresh(8 * n, "i"); b.cells[o] = (n, s); vs.append(Var("int", m, 8 * n, v, s, bid))
            elif k in ("ptr", "pint"):
                p = v.p if k == "pint" else v
                s = fresh(64, "p"); q = Ptr(p.b, s); b.cells[o] = (n, PInt(q) if k == "pint" else q); vs.append(Var("ptr", m, 64, p.o, s, p.b))
            elif k == "fp":
                s = ex.sym_fp("lv_f"); b.cells[o] = (n, s); vs.append(Var("fp", m, 0, v, s, bid))
            elif k == "obj":
                if not hasattr(v, "havoc"): raise Unsupported("a loop changes a %s" % type(v).__name__)
                nv, more = v.havoc(ex, st, m); b.cells[o] = (n, nv); vs.extend(more)
        elif m[0] == "R":
            b = st.wblk(m[1]); ex.nsym += 1
            f = z3.Function("lv_bytes!%d" % ex.nsym, z3.BitVecSort(64), z3.BitVecSort(8)); d = z3.Function("lv_def!%d" % ex.nsym, z3.BitVecSort(64), z3.BoolSort())
            v = Var("region", m, 8, node_of(b), None, b.id); node = BArrD(f, d); v.sym = node
            b.regs = ((0, b.size, node),); vs.append(v)
        elif m[0] == "X":
            b = st.wblk(m[1]); nr = []
            for i, r in enumerate(b.regs):
                ex.nsym += 1
                f = z3.Function("lv_bytes!%d" % ex.nsym, z3.BitVecSort(64), z3.BitVecSort(8)); d = z3.Function("lv_def!%d" % ex.nsym, z3.BitVecSort(64), z3.BoolSort())
                nr.append((r[0], r[1], BArrD(f, d)))
            b.regs = tuple(nr)
        elif m[0] == "G":
            x = st.ghost.get(m[1])
            if isinstance(x, z3.BitVecRef) or (isinstance(x, int) and not isinstance(x, bool)):
                s = fresh(x.size() if isinstance(x, z3.BitVecRef) else 64, "g"); st.ghost[m[1]] = s; vs.append(Var("ghost", m, s.size(), x, s))
            elif hasattr(x, "havoc"):
                nv, more = x.havoc(ex, st, m); st.ghost[m[1]] = nv; vs.extend(more)
            else: raise Unsupported("a loop changes the ghost state %r" % (m[1],))
    for i in fn._blocks[h].ins:
        if i.op != "phi": break
        v = regs[i.id]; k = classify(v); m = ("P", i.id)
        if k == "int":
            bits = i.ty.bits; s = fresh(bits, "r"); regs[i.id] = s; vs.append(Var("int", m, bits, v, s))
        elif k == "ptr":
            s = fresh(64, "rp"); regs[i.id] = Ptr(v.b, s); vs.append(Var("ptr", m, 64, v.o, s, v.b))
        elif k == "undef": regs[i.id] = UNDEF
        else: raise Unsupported("phi of a %s in a loop" % k)
    return Frame(regs, st, fr.allocas), vs

def getter(ex, f):
    def get(v):
        m = v.key
        if m[0] == "C":
            b = f.st.mem[m[1]]; c = b.cells.get(m[2])
            if c is None:
                r = ex.region_of(b, m[2], m[3])
                if r is None: raise Unsupported("loop location disappears")
                x = ex.bytes_read(f.st, r[2], sub(m[2], r[0]), m[3])
            else: x = c[1]
        elif m[0] == "R": return node_of(f.st.mem[m[1]])
        elif m[0] == "G": x = f.st.ghost.get(m[1])
        elif m[0] == "P": x = f.regs[m[1]]
        if v.obj is not None: return v.obj(ex, f.st, x)
        if isinstance(x, MaybeUndef): x = ex.define(f.st, x)
        if x is UNDEF: raise Unsupported("a loop leaves a location uninitialised")
        if v.kind == "ptr":
            if isinstance(x, PInt): x = x.p
            if not isinstance(x, Ptr) or x.b != v.block: raise Unsupported("a pointer moves to another object in a loop")
            return x.o
        if v.kind == "int" and isinstance(x, z3.BoolRef): x = ex.zext(x, 1, v.bits)
        if v.kind == "int" and not isinstance(x, (int, z3.BitVecRef)): raise Unsupported("a loop variable changes its kind")
        return x
    return get

def body(ex, fn, h, fr, spec):
    ex.nomerge += spec.split
    try: rets, leaving = ex.run_region(fn, fn.loops[h], [(h, fr)], header=h)
    finally: ex.nomerge -= spec.split
    back = [f for p, t, f in leaving if t == h]; out = [(p, t, f) for p, t, f in leaving if t != h]
    return back, out, rets

# ---------------------------------------------------------------- loops that are a tail recursion
def reachable(fn, h):
    seen = set(); work = [h]
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b); work.extend(fn._blocks[b].succ)
    return seen
def tail(ex, fn, h, fr, spec):
    """A loop whose header is reached again in the state in which a call f(x, ...) reaches it first is that call: the rest
    of the loop, and of the function, is taken by f's contract (induction on the argument that decreases).
    Shown here: the state at the header equals the one the call would reach, but for locals nothing reads any more."""
    T = spec.tail; args = T.entry(ex)
    if args is None: raise Unsupported("loop outside the function it is the body of")
    back, out, rets = body(ex, fn, h, Frame(dict(fr.regs), fr.st.fork(), fr.allocas), spec)
    blocks = reachable(fn, h); used = {o[1] for b in blocks for i in fn._blocks[b].ins for o in list(i.ops) + ([i.x[0]] if i.op in ("call", "invoke") else []) + ([q for _, q in i.x] if i.op == "phi" else []) if o[0] == "r"}
    res = [(p, t, f, False, None) for p, t, f in out] + [(None, None, f, True, v) for f, v in rets]
    for f in back:
        why = None
        for cargs in T.calls(ex, fr, f, args):
            g0 = f.st.fork(); ex.tail_prefix = True
            try: r2, firsts = ex.run_region(fn, set(range(len(fn._blocks))) - {h}, [(0, Frame(dict(enumerate(cargs)), g0))])
            finally: ex.tail_prefix = False
            if r2: why = "the call could return before the loop"; continue
            for _, t, g in firsts:
                if t != h: why = "the call takes another way"; break
                why = differs(ex, fn, fr, f, g, used)
                if why: break
            if not why: break
        if why is not None: raise Unsupported("loop in %s is not its own tail call: %s" % (_exe.shorten(_exe.demangle(fn.name)), why))
        for st, v in T.contract(ex, f.st, fn, cargs): res.append((None, None, Frame({}, st, f.allocas), True, v))
    if not ex.discover: ex.loops_cut.append({"function": _exe.shorten(_exe.demangle(fn.name)), "invariants": ["the rest of the loop is a call of the function on the rest of the path"], "rounds": 1})
    return res
def differs(ex, fn, fr, f, g, used):
    """Why the frames f and g at the header are not the same state; None if they are."""
    if len(f.allocas) != len(g.allocas): return "other locals"
    to = dict(zip(g.allocas, f.allocas)); regs = {}
    def eqv(x, y):          # x of g, y of f
        if x is UNDEF: return True
        if isinstance(x, Ptr) and isinstance(y, Ptr): return to.get(x.b, x.b) == y.b and eqv(x.o, y.o)
        if isinstance(x, Ptr) or isinstance(y, Ptr): return False
        if y is UNDEF: return False
        if same(x, y): return True
        if isinstance(x, (int, z3.ExprRef)) and isinstance(y, (int, z3.ExprRef)):
            a = zb(x) if isinstance(x, z3.BoolRef) or isinstance(y, z3.BoolRef) else bv(x, y.size() if isinstance(y, z3.BitVecRef) else 64)
            b = zb(y) if isinstance(a, z3.BoolRef) else bv(y, a.size()) if isinstance(a, z3.BitVecRef) else y
            return a.sort() == b.sort() and valid(ex, g.st.pc, a == b)
        return False
    for r in used:
        if r in g.regs and not eqv(g.regs[r], f.regs.get(r, UNDEF)): return "register %%%d" % r
    names = {v.b: r for r, v in g.regs.items() if isinstance(v, Ptr) and v.b in to and r not in range(len(fn.params))}
    for k, b in f.st.mem.items():
        if k not in f.allocas and g.st.mem.get(k) is not b: return "the call changes memory before the loop"
    if any(not same(v, g.st.ghost.get(k)) for k, v in f.st.ghost.items()): return "the call changes the state before the loop"
    work = [b for b in g.allocas if b in names and names[b] in used]; seen = set()     # the others: nothing that follows refers to them
    while work:
        b = work.pop()
        if b in seen: continue
        seen.add(b); x, y = g.st.mem.get(b), f.st.mem.get(to[b])
        if x is None: continue
        if y is None or x.regs != y.regs: return "a local"
        for o, (n, v) in x.cells.items():
            c = y.cells.get(o)
            if v is UNDEF: continue
            if c is None or c[0] != n or not eqv(v, c[1]): return "local %s at %s" % (names.get(b), o)
            if isinstance(v, Ptr) and v.b in to: work.append(v.b)
    return None

def cut(ex, fn, h, fr, spec):
    if spec.tail is not None: return tail(ex, fn, h, fr, spec)
    name = _exe.shorten(_exe.demangle(fn.name))
    it = ex.sym("it", 64); mods = {}; ex.discover += 1
    saved = (ex.npaths,); outer = ex.__dict__.get("inner_ok"); look = ex.__dict__.get("looking")
    try:
        ex.looking = spec.quick
        for rnd in range(12):
            hf, vs = havoc(ex, fn, h, fr, mods, it)
            base = hf.st.fork()
            start = len(hf.st.pc)
            if spec.facts: hf.st.pc.extend(zb(x) for x in spec.facts(mkctx(ex, fr, vs, it, hf)))
            back, out, rets = body(ex, fn, h, hf, spec)
            new = False
            for f in back: new |= diff(ex, base, f.st, mods)
            if not new: break
        else: raise Unsupported("loop modification set does not settle")
        ex.looking = look
        if spec.quick and look: return [(p, t, f, False, None) for p, t, f in out] + [(None, None, f, True, v) for f, v in rets]
        # generic candidates
        cands = []
        sub_of = lambda get: [(v.sym, bv(get(v), v.bits)) for v in vs if v.kind in ("int", "ptr", "len", "ghost") and isinstance(v.sym, z3.BitVecRef)]
        gets = [getter(ex, f) for f in back]
        for v in vs:
            if v.kind not in ("int", "ptr", "len", "ghost"): continue
            ds = set()
            for g in gets:
                d = z3.simplify(bv(g(v), v.bits) - v.sym)
                ds.add(d.as_long() if z3.is_bv_value(d) else None)
            if len(ds) == 1 and None not in ds:
                c = ds.pop(); v.delta = c
                def lin(get, itv, v=v, c=c): return bv(get(v), v.bits) == bv(v.entry, v.bits) + z3.BitVecVal(c, v.bits) * (itv if v.bits == 64 else z3.Extract(v.bits - 1, 0, itv) if v.bits < 64 else z3.ZeroExt(v.bits - 64, itv))
                cands.append(("linear %r" % v, lin)); lin.var = v
            elif v.kind == "int" and isinstance(v.sym, z3.BitVecRef):
                # a flag set by the first iteration and left alone
                vals = set()
                for g in gets:
                    x = g(v); x = z3.simplify(bv(x, v.bits)); vals.add(x.as_long() if z3.is_bv_value(x) else None)
                if len(vals) == 1 and None not in vals:
                    c = vals.pop()
                    cands.append(("flag %r" % v, lambda get, itv, v=v, c=c: z3.If(itv == 0, bv(get(v), v.bits) == bv(v.entry, v.bits), bv(get(v), v.bits) == c)))
            # values from a small set seen so far: still the entry value
            def keep(get, itv, v=v): return bv(get(v), v.bits) == bv(v.entry, v.bits)
            cands.append(("unchanged %r" % v, keep))
        seen = set()
        if spec.auto:
            for f in back:
                for cjt in f.st.pc[start:]:
                    for a, b in atoms(cjt):
                        if a.size() != b.size(): continue
                        k = (a.get_id(), b.get_id())
                        if k in seen or (b.get_id(), a.get_id()) in seen or len(seen) > 24: continue
                        seen.add(k)
                        for nm, op in (("ule", z3.ULE), ("uge", z3.UGE), ("sle", lambda x, y: x <= y), ("sge", lambda x, y: x >= y)):
                            e = op(a, b)
                            cands.append(("%s" % nm, lambda get, itv, e=e: z3.substitute(e, *(sub_of(get) + [(it, itv)]))))
        cx = mkctx(ex, fr, vs, it, hf)
        for N in (spec.bounds(cx) if spec.bounds else []):
            cands.append(("it <= bound", lambda get, itv, N=N: z3.ULE(itv, bv(N, 64))))
        if spec.cands:
            for c in spec.cands(cx): cands.append(c)
        if outer is not None:
            vis = outer.setdefault("visits", {}); k = (fn.name, h); vis[k] = vis.get(k, 0) + 1; k = k + (vis[k],)
            cands = named(cands)
            if k in outer: cands = [x for x in cands if x[0] in outer[k]]
        # base
        g0 = getter(ex, fr); zero = z3.BitVecVal(0, 64); ok = []
        f0 = [zb(x) for x in spec.facts(mkctx(ex, fr, vs, zero, fr))] if spec.facts else []
        es = []
        for nm, c in cands:
            try: es.append((nm, c, c(g0, zero)))
            except Unsupported: continue
        good = valid_many(ex, fr.st.pc + f0, [e for _, _, e in es])
        ok = [(nm, c) for (nm, c, _), g in zip(es, good) if g]
        # induction
        rounds = 0
        if spec.quick: ex.inner_ok = {}
        while True:
            rounds += 1
            if spec.quick: ex.inner_ok["visits"] = {}
            hf, vs2 = reheader(ex, fn, h, fr, mods, it, vs, ok)
            gh = getter(ex, hf)
            for nm, c in ok: hf.st.pc.append(zb(c(gh, it)))
            if spec.facts: hf.st.pc.extend(zb(x) for x in spec.facts(mkctx(ex, fr, vs, it, hf)))
            mods2 = dict(mods); base = hf.st.fork()
            back, out, rets = body(ex, fn, h, hf, spec)
            for f in back:
                if diff(ex, base, f.st, mods2): raise Unsupported("loop modification set does not settle")
            bad = set()
            for f in back:
                g = getter(ex, f); nx = it + 1
                fx = [zb(x) for x in spec.facts(mkctx(ex, fr, vs, nx, f))] if spec.facts else []
                es = []
                for j, (nm, c) in enumerate(ok):
                    if j in bad: continue
                    try: es.append((j, c(g, nx)))
                    except Unsupported: bad.add(j); continue
                good = valid_many(ex, f.st.pc + fx, [e for _, e in es])
                bad |= {j for (j, _), v in zip(es, good) if not v}
            if not bad: break
            if ex.verbose: print("   dropped:", [ok[j][0] for j in sorted(bad)], file=__import__("sys").stderr)
            ok = [x for j, x in enumerate(ok) if j not in bad]
    finally: ex.discover -= 1; ex.looking = look; inner, ex.inner_ok = ex.inner_ok if "inner_ok" in ex.__dict__ else None, outer
    if outer is not None: outer[k] = {nm for nm, _ in ok}
    if ex.verbose: print("loop in %s: invariants %s after %d rounds" % (name, [n for n, _ in ok], rounds), file=__import__("sys").stderr)
    # final run: obligations are recorded
    hf, _ = reheader(ex, fn, h, fr, mods, it, vs, ok); gh = getter(ex, hf)
    for nm, c in ok: hf.st.pc.append(zb(c(gh, it)))
    if spec.facts: hf.st.pc.extend(zb(x) for x in spec.facts(mkctx(ex, fr, vs, it, hf)))
    if spec.quick: ex.inner_ok = dict(inner, visits={})
    try: back, out, rets = body(ex, fn, h, hf, spec)
    finally: ex.inner_ok = outer
    if not ex.discover: ex.loops_cut.append({"function": name, "invariants": sorted(set(n for n, _ in ok)), "rounds": rounds})
    return [(p, t, f, False, None) for p, t, f in out] + [(None, None, f, True, v) for f, v in rets]

def named(cands):
    """The same with names that differ."""
    seen = {}; out = []
    for nm, c in cands:
        seen[nm] = seen.get(nm, 0) + 1; out.append((nm if seen[nm] == 1 else "%s #%d" % (nm, seen[nm]), c))
    return out
def linear_value(v, it):
    c = v.delta
    i = it if v.bits == 64 else z3.Extract(v.bits - 1, 0, it) if v.bits < 64 else z3.ZeroExt(v.bits - 64, it)
    if c == 0: return v.entry
    t = i if c == 1 else z3.BitVecVal(c, v.bits) * i
    return add(v.entry, t, v.bits)

def reheader(ex, fn, h, fr, mods, it, vs, ok=()):
    """A header frame with the same symbols as vs."""
    n = ex.nsym
    hf, v2 = havoc(ex, fn, h, fr, mods, it)
    # rename the fresh symbols of v2 back to those of vs
    st = hf.st; lin = {id(c.var) for _, c in ok if hasattr(c, "var")}
    for a, b in zip(vs, v2):
        val = linear_value(a, it) if id(a) in lin else a.sym
        if a.key != b.key or a.kind != b.kind: raise Unsupported("unstable loop variables")
        m = a.key
        if m[0] == "C":
            blk = st.wblk(m[1]); n_, cur = blk.cells[m[2]]
            blk.cells[m[2]] = (n_, resym(st, cur, val, a))
        elif m[0] == "R":
            blk = st.wblk(m[1]); blk.regs = ((0, blk.size, a.sym),)
        elif m[0] == "G": st.ghost[m[1]] = resym(st, st.ghost[m[1]], val, a)
        elif m[0] == "P": hf.regs[m[1]] = resym(st, hf.regs[m[1]], val, a)
    for b, o in sorted({a.key[1:3] for a in vs if a.key[0] == "C"}, key=str):
        x = st.mem[b].cells[o][1]
        if hasattr(x, "known"): st.pc.append(zb(x.known()))
    return hf, vs

def resym(st, cur, val, v):
    if isinstance(cur, Ptr): return Ptr(cur.b, val)
    if isinstance(cur, PInt): return PInt(Ptr(cur.p.b, val))
    if isinstance(cur, Obj): return cur.resym(st, val, v)
    return val

def mkctx(ex, fr, vs, it, cur):
    c = Ctx(); c.ex = ex; c.entry = fr; c.vars = vs; c.it = it; c.cur = cur; c.st = cur.st; c.get = getter(ex, cur); return c

def atoms(t):
    """Pairs of bit-vector terms compared in t."""
    out = []; work = [t]; seen = set()
    while work:
        x = work.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): continue
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT) and isinstance(x.arg(0), z3.BitVecRef):
            out.append((x.arg(0), x.arg(1)))
        elif k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES): work.extend(x.children())
    return out

def valid_many(ex, pc, es):
    """valid() of each; one query refutes or proves many."""
    res = [None] * len(es); pc = list(pc)
    for j, e in enumerate(es):
        es[j] = e = zb(e)
        if z3.is_true(e): res[j] = True
        elif z3.is_false(e): res[j] = valid(ex, pc, e)
    def go(todo):
        while todo:
            if len(todo) == 1: res[todo[0]] = valid(ex, pc, es[todo[0]]); return
            r, m = ex._check(pc, z3.Not(z3.And([es[j] for j in todo])), 2)
            if r == z3.unsat:
                for j in todo: res[j] = True
                return
            bad = [j for j in todo if z3.is_false(m.eval(es[j], model_completion=True))] if r == z3.sat else []
            if not bad: go(todo[:len(todo) // 2]); go(todo[len(todo) // 2:]); return
            for j in bad: res[j] = False
            todo = [j for j in todo if res[j] is None]
    go([j for j in range(len(es)) if res[j] is None])
    return res
def valid(ex, pc, e):
    e = zb(e)
    if z3.is_true(e): return True
    if z3.is_false(z3.simplify(e)): return not ex._check(list(pc), z3.BoolVal(True))[0] != z3.unsat
    r, _ = ex._check(list(pc), z3.Not(e), 2)
    if r == z3.unknown:
        i = ex.int_solve(list(pc), z3.Not(e), 8)
        if i in ("sat", "unsat"): return i == "unsat"
        r = ex.fresh_solve(list(pc), z3.Not(e), 12)[0]
    return r == z3.unsat
