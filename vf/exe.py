"""Symbolic execution of LLVM IR with contracts; every obligation goes to an SMT solver."""
import heapq, os, re, struct, subprocess, sys, tempfile, time
import z3
from .sym import *
from . import llir
from .llir import demangle

sys.setrecursionlimit(20000)
F64 = z3.Float64(); F32 = z3.Float32()
RNE = z3.RNE(); RTZ = z3.RTZ()

def eval_fp(v):
    n = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    return struct.unpack("<d", struct.pack("<Q", n))[0]
def fabs_of(x):
    """|x|; |a-b| is |b-a| for IEEE numbers (also for infinities; NaN stays NaN), so the operands are put in one order."""
    def signed(y): return (y.arg(0), True) if z3.is_app_of(y, z3.Z3_OP_FPA_NEG) else (y, False)
    if z3.is_app_of(x, z3.Z3_OP_FPA_SUB) or z3.is_app_of(x, z3.Z3_OP_FPA_ADD):
        (p, sp), (q, sq) = signed(x.arg(1)), signed(x.arg(2))
        if z3.is_app_of(x, z3.Z3_OP_FPA_SUB): sq = not sq
        if p.get_id() > q.get_id(): p, sp, q, sq = q, sq, p, sp
        x = z3.fpSub(x.arg(0), p, q) if sp != sq else z3.fpAdd(x.arg(0), p, q)
    return z3.simplify(z3.fpAbs(x))
SLOW = float(os.environ.get("VF_SLOW", "0"))
class Oblig:
    __slots__ = ("kind", "label", "where", "status", "backend", "secs", "model", "reason")
    def __init__(self, kind, label, where):
        self.kind = kind; self.label = label; self.where = where; self.status = None; self.backend = ""; self.secs = 0.0
        self.model = None; self.reason = ""
    def name(self): return "%s: %s @ %s" % (self.kind, self.label, self.where)

class Frame:
    __slots__ = ("regs", "st", "allocas")
    def __init__(self, regs, st, allocas=()): self.regs = regs; self.st = st; self.allocas = allocas

class Multi(list): pass

class Exec:
    def __init__(self, mod, log=None):
        global CURRENT; CURRENT = self
        self.mod = mod; self.obligs = []; self.nblk = 10; self.nsym = 0
        self.contracts = []          # (compiled regex on demangled name, handler)
        self.exact = {}              # mangled name -> handler
        self.xint = {}; self.narrow = {}
        self.cache_contract = {}
        self.fnblk = {}; self.fnblk_rev = {}; self.glblk = {}
        self.stack = []; self.discover = 0; self.nomerge = 0
        self.solver = z3.Solver(); self.solver.set("timeout", 4000); self.sst = []
        self.nq = 0; self.tq = 0.0; self.deadline = None
        self.loop_policy = lambda fn, h: None     # None: unroll; LoopSpec: cut
        self.max_unroll = 80
        self.log = log; self.verbose = bool(os.environ.get("VF_VERBOSE"))
        self.inputs = []             # (name, term) of every any()
        self.reached = {}            # label -> reached
        self.aborted = 0; self.fn_executed = {}; self.contracts_used = {}; self.assumed = {}
        self.path_stats = {"returned": 0, "aborted": 0, "assumed_away": 0}
        self.backends = {}; self.prove_timeout = 20; self.loops_cut = []; self.loops_unrolled = {}
        self.check_undef_branch = True
        self.base_pc = []
        self.abort_hook = None
        self.alias_done = set()
        self.max_paths = 20000; self.npaths = 0
        self.on_access = None; self.at_end = []
        self.fresh_after = None     # seconds after which a query is given to a new solver, which preprocesses it
        self.cvc5_tries = 0; self.base_rem = {}; self.gl_cache = {}; self.glrev = {}

    # ------------------------------------------------------------------ solver
    def _sync(self, pc):
        i = 0; n = min(len(pc), len(self.sst))
        while i < n and self.sst[i] is pc[i]: i += 1
        k = len(self.sst) - i
        if k:
            self.solver.pop(k); del self.sst[i:]
        for c in pc[i:]:
            self.solver.push(); self.solver.add(c); self.sst.append(c)

    def _check(self, pc, extra, timeout=None):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget of the proof used up")
        t = time.time(); self._sync(pc); self.solver.push(); self.solver.add(extra)
        limit = min(timeout or 4, self.fresh_after or 4)
        if limit != 4: self.solver.set("timeout", int(limit * 1000))
        r = self.solver.check(); m = self.solver.model() if r == z3.sat else None
        if limit != 4: self.solver.set("timeout", 4000)
        self.solver.pop(); self.nq += 1; self.tq += time.time() - t
        if r == z3.unknown and self.fresh_after: r, m, _ = self.fresh_solve(pc, extra, timeout or 4)
        if SLOW and time.time() - t > SLOW and os.environ.get("VF_DUMP"):
            q = z3.Solver(); q.add(pc); q.add(extra); open("/tmp/slow%d.smt2" % self.nq, "w").write(q.to_smt2())
        if SLOW and time.time() - t > SLOW: print("SLOW %.1f %s %s\n   %s" % (time.time() - t, r, self.where(), str(extra)[:1500]), flush=True)
        return r, m

    def feasible(self, st, c):
        c = zb(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        r, _ = self._check(st.pc, c)
        return r != z3.unsat

    def fresh_solve(self, pc, neg, timeout):
        s = z3.Solver(); s.set("timeout", int(timeout * 1000)); s.add(pc); s.add(neg)
        t = time.time(); r = s.check(); self.tq += time.time() - t; self.nq += 1
        return r, (s.model() if r == z3.sat else None), s

    def int_solve(self, pc, neg, timeout):
        """Integer blasting: sums of 64-bit terms are hard for bit-blasting."""
        s = z3.Solver(); s.add(pc); s.add(neg)
        return self.cvc5_solve(s, timeout, ["--solve-bv-as-int=sum"])

    def cvc5_solve(self, s, timeout, opts=()):
        txt = "(set-logic ALL)\n" + s.to_smt2()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt); name = f.name
        try:
            t = time.time()
            p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000)] + list(opts) + [name], capture_output=True, text=True, timeout=timeout + 10)
            self.tq += time.time() - t; self.nq += 1
            o = p.stdout.strip().splitlines()
            return o[0] if o else "unknown"
        except (subprocess.TimeoutExpired, OSError):
            return "unknown"
        finally:
            os.unlink(name)

    def where(self, ins=None):
        f = demangle(self.stack[-1]) if self.stack else "?"
        # name the innermost rst function and the function itself
        rs = [n for n in (demangle(x) for x in self.stack) if "rst::" in n and not n.startswith("std::") and not n.startswith("void std::")]
        f = shorten(f); r = shorten(rs[-1]) if rs else ""
        ln = (":%d" % ins.line) if ins is not None and ins.line else ""
        return (r + " <- " if r and r != f else "") + f + ln

    def require(self, st, goal, kind, label, ins=None):
        """Record and discharge an obligation; afterwards the goal is assumed. Returns True if proved."""
        raw = goal
        if not isc(goal): goal = fold(goal)
        if self.discover:
            if isc(goal):
                if not goal: raise PathEnd()
                return True
            st.pc.append(goal); return True
        o = Oblig(kind, label, self.where(ins)); self.obligs.append(o)
        if isc(goal) and goal:
            o.status = "proved"; o.backend = "evaluator"; return True
        t = time.time()
        neg = NOT(goal) if not isc(goal) else True
        r, m = self._check(st.pc, zb(neg))
        o.backend = "z3"
        if r == z3.unknown:
            fs = abstract_muls(st.pc + [z3.Not(zb(raw))])
            if fs is not None:
                r2, _, _ = self.fresh_solve(fs[:-1], fs[-1], 5)
                if r2 == z3.unsat: r = r2; o.backend = "z3 (odd multipliers as bijections)"
        if r == z3.unknown and self.int_solve(st.pc, zb(neg), 8) == "unsat":
            r = z3.unsat; o.backend = "cvc5 (integer blasting)"
        if r == z3.unknown:
            r, m, s = self.fresh_solve(st.pc, zb(neg), self.prove_timeout)
            if r == z3.unknown and self.cvc5_tries < 40:
                self.cvc5_tries += 1
                c = self.cvc5_solve(s, self.prove_timeout)
                if c in ("unsat", "sat"): o.backend = "cvc5"
                r = z3.unsat if c == "unsat" else z3.sat if c == "sat" else z3.unknown
        o.secs = time.time() - t
        if r == z3.unsat:
            o.status = "proved"
            if not isc(goal): st.pc.append(goal)
            return True
        o.status = "failed" if r == z3.sat else "unknown"
        if m is not None: o.model = self.model_inputs(st, neg, m)
        o.reason = "solver answered %s" % r
        if os.environ.get("VF_MODEL") and m is not None: print("MODEL", o.name(), [(str(k), m[k]) for k in m.decls() if not str(k).startswith("e_")], "\nPC", str(st.pc[-40:]).replace("\n", " "), file=sys.stderr)
        if self.verbose: print("  OBLIGATION", o.status, o.name(), o.model, file=sys.stderr)
        if isc(goal): raise PathEnd()
        if not self.feasible(st, goal): raise PathEnd()
        st.pc.append(goal)
        return False

    def model_inputs(self, st, neg, m):
        """Tape (list of lines) of the inputs of this path under a model, preferring short byte strings."""
        inp = st.ghost.get("inputs", ())
        lens = [t[2] for t in inp if t[0] == "b" and not isc(t[2])]
        if any(m.eval(n, model_completion=True).as_long() > 40 for n in lens):
            for lim in (8, 40, 300):
                r, m2 = self._check(st.pc, z3.And(zb(neg), *[z3.ULE(n, z3.BitVecVal(lim, 64)) for n in lens]), 5)
                if r == z3.sat: m = m2; break
        out = []
        ev = lambda t: m.eval(t, model_completion=True)
        for t in inp:
            try:
                if t[0] == "i": out.append("i %s %d" % (t[1], ev(t[2]).as_long() if not isc(t[2]) else t[2]))
                elif t[0] == "d":
                    v = z3.simplify(z3.fpToIEEEBV(ev(t[2]))); out.append("d %s %d" % (t[1], v.as_long() if z3.is_bv_value(v) else 0x7ff8000000000000))
                else:
                    n = min(ev(t[2]).as_long() if not isc(t[2]) else t[2], 4096)
                    bs = bytes(ev(bv(t[3](z3.BitVecVal(i, 64)), 8)).as_long() for i in range(n))
                    out.append("b %s %s" % (t[1], bs.hex() or "-"))
            except Exception as e:
                out.append("i %s 0" % t[1])
        return out

    def assume(self, st, c):
        if not isc(c): c = fold(c)
        if isc(c):
            if not c: raise PathEnd()
            return
        st.pc.append(c)

    def decide(self, st, c):
        """Truth of c on this path; raises Fork when both are possible."""
        if not isc(c): c = fold(c)
        if isc(c): return bool(c)
        k = c.get_id(); d = st.decided.get(k)
        if d is not None: return d[1]
        t = self.feasible(st, c)
        if not t:
            st.decided[k] = (c, False); return False
        f = self.feasible(st, z3.Not(c))
        if not f:
            st.decided[k] = (c, True); return True
        raise Fork(c)

    def fork_on(self, st, c):
        """-> (state with c, state with not c); c is known to be undecided"""
        o = st.fork()
        st.pc.append(c); st.decided[c.get_id()] = (c, True)
        n = z3.Not(c); o.pc.append(n); o.decided[c.get_id()] = (c, False)
        return st, o

    def sym(self, name, bits):
        self.nsym += 1
        return z3.BitVec("%s!%d" % (name, self.nsym), bits) if bits > 1 else z3.Bool("%s!%d" % (name, self.nsym))
    def sym_fp(self, name):
        self.nsym += 1
        return z3.FP("%s!%d" % (name, self.nsym), F64)

    # ------------------------------------------------------------------ memory
    def new_blk(self, st, kind, size, name=""):
        self.nblk += 1
        b = Blk(self.nblk, kind, size, name); b.owner = st.tok; st.mem[b.id] = b
        return b

    def fn_ptr(self, fn):
        i = self.fnblk_rev.get(fn.name)
        if i is None:
            self.nblk += 1; i = self.nblk; self.fnblk_rev[fn.name] = i; self.fnblk[i] = fn
        return Ptr(i, 0)

    def global_ptr(self, st, g):
        i = self.glblk.get(g.name)
        if i is None:
            self.nblk += 1; i = self.nblk; self.glblk[g.name] = i; self.glrev[i] = g
        if i not in st.mem:
            b = Blk(i, "global", g.ty.size if g.ty.size is not None else 1 << 40, g.name); b.owner = st.tok; b.align = max(1, g.align)
            st.mem[i] = b; b.ro = g.const
            ini = self.mod.init(g); k = self.gl_cache.get(g.name)
            if k is not None:
                b.cells = dict(k[0]); b.regs = k[1]
                for _, v in k[0].values():
                    if isinstance(v, Ptr) and v.b in self.glrev and v.b not in st.mem: self.global_ptr(st, self.glrev[v.b])
            elif ini is not None:
                self.init_const(st, b, 0, ini); self.gl_cache[g.name] = (dict(b.cells), b.regs)
            elif g.decl: b.kind = "extern"
        return Ptr(i, 0)

    def init_const(self, st, b, off, c):
        k = c[0]
        if k == "zero":
            b.regs = b.regs + ((off, c[1].size, BZero()),)
        elif k == "str":
            b.regs = b.regs + ((off, len(c[1]), BConst(c[1])),)
        elif k == "agg":
            t = c[2]
            for i, e in enumerate(c[1]):
                o = t.offs[i] if t.kind == "struct" else i * t.elem.size
                self.init_const(st, b, off + o, e)
        elif k == "undef": pass
        else:
            v = self.const_val(st, c)
            b.cells[off] = (self.const_size(c), v)

    def const_size(self, c):
        k = c[0]
        if k == "i": return (c[2].bits + 7) // 8
        if k == "fp": return c[2].size
        if k in ("null", "g", "f"): return 8
        if k == "ce": return c[4].size
        raise Unsupported("const size " + k)

    def const_val(self, st, c):
        k = c[0]
        if k == "i": return bool(c[1]) if c[2].bits == 1 else c[1]
        if k == "null": return NULL
        if k == "undef": return UNDEF
        if k == "fp":
            if c[2].kind == "float": return z3.FPVal(c[1], F32)
            return z3.FPVal(c[1], F64)
        if k == "g": return self.global_ptr(st, c[1])
        if k == "f": return self.fn_ptr(c[1])
        if k == "zero": return self.zero_of(c[1])
        if k == "agg": return [self.const_val(st, x) for x in c[1]]
        if k == "str": return list(c[1])
        if k == "ce":
            op, ops, x = c[1], [self.const_val(st, o) for o in c[2]], c[3]
            if op == "getelementptr": return self.gep(st, x, ops[0], ops[1:], [o[2].bits if o[0] == "i" else 64 for o in c[2][1:]])
            if op == "ptrtoint": return PInt(ops[0])
            if op in ("bitcast", "inttoptr", "addrspacecast"): return ops[0]
            if op == "sub": return self.binop(st, "sub", ops[0], ops[1], 64, 0, None)
            raise Unsupported("constant expression " + op)
        raise Unsupported("constant " + k)

    def zero_of(self, t):
        if t.kind == "int": return False if t.bits == 1 else 0
        if t.kind == "pointer": return NULL
        if t.kind == "double": return z3.FPVal(0.0, F64)
        if t.kind == "float": return z3.FPVal(0.0, F32)
        if t.kind == "struct": return [self.zero_of(e) for e in t.elems]
        if t.kind == "array": return [self.zero_of(t.elem) for _ in range(t.n)]
        raise Unsupported("zero of " + t.kind)

    def access(self, st, p, n, what, ins=None, write=False):
        """Check that [p, p+n) may be accessed; returns the block."""
        if isinstance(p, MaybeUndef) : p = self.define(st, p, ins)
        if isinstance(p, PInt): p = p.p
        if p is UNDEF:
            self.require(st, False, "safety", what + " through an uninitialised pointer", ins)
        if not isinstance(p, Ptr): raise Unsupported("%s through a non-pointer %r" % (what, p))
        if p.b == 0:
            self.require(st, False, "safety", what + " through a null pointer", ins)
        b = st.mem.get(p.b)
        if b is None:
            if p.b in self.fnblk: raise Unsupported(what + " of code")
            self.require(st, False, "safety", what + " of a local whose scope has ended", ins)
        if not b.alive:
            self.require(st, False, "safety", what + " after free", ins)
        if isc(n) and n == 0: return b
        if isc(p.o) and isc(n) and isc(b.size):
            if p.o + n <= b.size: return b
            self.require(st, False, "safety", what + " out of bounds", ins)
        goal = AND(ule(p.o, b.size), ule(n, sub(b.size, p.o)))
        self.require(st, goal, "safety", what + " in bounds", ins)
        if write and b.ro: self.require(st, False, "safety", "write to read-only memory", ins)
        return b

    def define(self, st, v, ins=None):
        if isinstance(v, MaybeUndef):
            if self.decide(st, v.cond): return v.val
            return UNDEF
        return v

    def load_ty(self, st, p, t, ins=None):
        k = t.kind
        if k == "int":
            nb = (t.bits + 7) // 8
            self.access(st, p, nb, "read", ins)
            v = self.load(st, p, nb, "i", ins)
            if v is UNDEF: return v
            if isinstance(v, MaybeUndef):
                v = self.define(st, v)
                if v is UNDEF: return v
            if isinstance(v, Ptr): v = PInt(v)
            if t.bits == 1: return self.trunc(v, 8, 1)
            if t.bits % 8: return self.trunc(v, nb * 8, t.bits)
            return v
        if k == "pointer":
            self.access(st, p, 8, "read", ins)
            v = self.define(st, self.load(st, p, 8, "p", ins))
            return self.as_ptr(v)
        if k in ("double", "float"):
            self.access(st, p, t.size, "read", ins)
            v = self.define(st, self.load(st, p, t.size, "f", ins))
            if v is UNDEF or isinstance(v, z3.FPRef): return v
            return z3.fpBVToFP(bv(v, t.size * 8), F64 if k == "double" else F32)
        if k == "struct":
            return [self.load_ty(st, Ptr(p.b, add(p.o, t.offs[i])), e, ins) for i, e in enumerate(t.elems)]
        if k == "array":
            return [self.load_ty(st, Ptr(p.b, add(p.o, i * t.elem.size)), t.elem, ins) for i in range(t.n)]
        if k == "x86_fp80":
            self.access(st, p, 16, "read", ins)
            return self.define(st, self.load(st, p, 16, "o", ins))
        raise Unsupported("load of " + k)

    def as_ptr(self, v):
        if isinstance(v, (Ptr, Obj)) or v is UNDEF: return v
        if isinstance(v, PInt): return v.p
        if isc(v) and v == 0: return NULL
        raise Unsupported("integer used as a pointer: %r" % (v,))

    def store_ty(self, st, p, t, v, ins=None):
        k = t.kind
        if k == "struct":
            for i, e in enumerate(t.elems):
                self.store_ty(st, Ptr(p.b, add(p.o, t.offs[i])), e, UNDEF if v is UNDEF else v[i], ins)
            return
        if k == "array":
            for i in range(t.n):
                self.store_ty(st, Ptr(p.b, add(p.o, i * t.elem.size)), t.elem, UNDEF if v is UNDEF else v[i], ins)
            return
        if k == "int":
            n = (t.bits + 7) // 8
            if t.bits < 8 or t.bits % 8: v = self.zext(v, t.bits, n * 8)
        elif k == "pointer": n = 8
        elif k in ("double", "float", "x86_fp80"): n = t.size
        else: raise Unsupported("store of " + k)
        self.access(st, p, n, "write", ins, True)
        self.store(st, p, n, v)

    # raw load/store (bounds already checked)
    def load(self, st, p, n, want, ins=None):
        b = st.mem[p.b]; o = p.o
        if b.arr is not None:
            r = b.arr.read(self, st, b, o, n, want)
            if r is not NotImplemented: return r
        if not isc(o):
            o2 = fold(o)
            if isc(o2): o = o2
        if isc(o):
            c = b.cells.get(o)
            if c is not None and c[0] == n: return c[1]
            r = self.region_of(b, o, n)
            if r is not None and not self.overlap(b, o, n): return self.bytes_read(st, r[2], sub(o, r[0]), n)
            parts = self.overlap(b, o, n)
            if parts: return self.compose(st, b, o, n, parts)
            if b.lazy is not None:
                v = b.lazy(self, st, b, o, n, want)
                if v is not NotImplemented:
                    st.wblk(b.id).cells[o] = (n, v); return v
            if b.kind == "extern" and b.name == "__libc_single_threaded": return 0
            if b.kind == "extern": raise Unsupported("read of the undefined global " + b.name)
            return UNDEF
        # symbolic offset
        if b.regs and not b.cells and all(isc(r[0]) for r in b.regs):
            return self.bytes_read(st, self.whole(st, p.b), o, n)
        v = self.unique(st, o)
        if v is not None: return self.load(st, Ptr(p.b, v), n, want, ins)
        # several cells/regions: choose among cells of the same size, or the region that must contain the access
        for r in b.regs:
            inr = AND(ule(r[0], o), ule(add(o, n), add(r[0], r[1])))
            if self.decide(st, inr):
                for co, (cs, cv) in b.cells.items():
                    if self.decide(st, AND(ult(co, add(o, n)), ult(o, co + cs))): raise Unsupported("cell inside region at symbolic offset")
                return self.bytes_read(st, r[2], sub(o, r[0]), n)
        cand = [(co, cv) for co, (cs, cv) in sorted(b.cells.items()) if cs == n]
        if not cand or len(cand) > 300: raise Unsupported("read at a symbolic offset of " + b.name)
        if all(isinstance(cv, (int, z3.BitVecRef)) for _, cv in cand):
            self.require(st, OR(*[eq(o, co) for co, _ in cand]), "safety", "element-aligned read", ins)
            r = cand[-1][1]
            for co, cv in reversed(cand[:-1]): r = ite(eq(o, co), cv, r, n * 8)
            return r
        for co, cv in cand:
            if self.decide(st, eq(o, co)): return cv
        raise Unsupported("read at a symbolic offset of " + b.name)

    def unique(self, st, t):
        """The only value t can have on this path, or None."""
        r, m = self._check(st.pc, z3.BoolVal(True))
        if r != z3.sat: return None
        v = m.eval(t, model_completion=True)
        if not z3.is_bv_value(v): return None
        r, _ = self._check(st.pc, t != v)
        return v.as_long() if r == z3.unsat else None

    def overlap(self, b, o, n):
        return [(co, cs, cv) for co, (cs, cv) in b.cells.items() if co < o + n and o < co + cs]

    def region_of(self, b, o, n):
        for r in b.regs:
            if isc(r[0]):
                if isc(r[1]):
                    if r[0] <= o and o + n <= r[0] + r[1]: return r
                elif r[0] <= o: return r
        return None

    def bytes_read(self, st, node, off, n):
        vs = []; ds = []
        for i in range(n):
            v, d = bread(node, add(off, i)); vs.append(v); ds.append(d)
        d = AND(*ds)
        if not isc(d): d = fold(d)
        if isc(d) and not d: return UNDEF
        if all(isc(v) for v in vs): r = sum(v << (8 * i) for i, v in enumerate(vs))
        elif n == 1: r = vs[0]
        else: r = z3.Concat(*[bv(v, 8) for v in reversed(vs)])
        return r if isc(d) else MaybeUndef(d, r)

    def int_of(self, v, bits):
        if isinstance(v, z3.FPRef): return z3.fpToIEEEBV(v)
        if isinstance(v, (bool, z3.BoolRef)): return self.zext(v, 1, bits)
        return v

    def compose(self, st, b, o, n, parts):
        """Read n bytes at o from cells that do not match exactly."""
        if len(parts) == 1:
            co, cs, cv = parts[0]
            if cv is UNDEF and co <= o and o + n <= co + cs: return UNDEF
            if co <= o and o + n <= co + cs:
                if isinstance(cv, (Ptr, PInt, Obj, MaybeUndef)):
                    if isinstance(cv, MaybeUndef):
                        cv = self.define(st, cv)
                        if cv is UNDEF: return UNDEF
                    if hasattr(cv, "part"):
                        r = cv.part(self, st, o - co, n)
                        if r is not None: return r
                    if isinstance(cv, (Ptr, PInt, Obj)): raise Unsupported("partial read of a pointer or object in " + b.name)
                x = self.int_of(cv, cs * 8); sh = (o - co) * 8
                if isc(x): return (x >> sh) & ((1 << (8 * n)) - 1)
                return z3.Extract(sh + n * 8 - 1, sh, x)
        # Bytes never written are any bytes when others of the same access are (padding of coerced returns).
        out = []; pos = o; some = False
        while pos < o + n:
            c = b.cells.get(pos)
            if c is not None and pos + c[0] <= o + n:
                v = c[1]
                if isinstance(v, MaybeUndef): v = self.define(st, v)
                v = self.int_of(v, c[0] * 8) if v is not UNDEF else v
                if isinstance(v, (Ptr, PInt, Obj)): raise Unsupported("read across pointer cells of " + b.name)
                out.append((v, c[0])); pos += c[0]; continue
            pp = self.overlap(b, pos, 1)
            if pp:
                v = self.compose(st, b, pos, 1, pp)
            else:
                r = self.region_of(b, pos, 1)
                if r is None:
                    if b.lazy is not None: raise Unsupported("mixed lazy read")
                    v = UNDEF
                else: v = self.bytes_read(st, r[2], sub(pos, r[0]), 1)
            if isinstance(v, MaybeUndef): v = self.define(st, v)
            out.append((v, 1)); pos += 1
        if all(v is UNDEF for v, _ in out): return UNDEF
        out = [(self.sym("padding", 8 * s) if v is UNDEF else v, s) for v, s in out]
        if all(isc(v) for v, _ in out):
            r = 0; sh = 0
            for v, s in out: r |= v << sh; sh += 8 * s
            return r
        return z3.Concat(*[bv(v, 8 * s) for v, s in reversed(out)])

    def store(self, st, p, n, v):
        b = st.wblk(p.b); o = p.o
        if isinstance(v, bool): v = int(v)
        if b.arr is not None:
            r = b.arr.write(self, st, b, o, n, v)
            if r is not NotImplemented: return
        if not isc(o):
            o2 = fold(o)
            if isc(o2): o = o2
        if isc(o):
            intv = isinstance(v, (int, z3.BitVecRef))
            for r in b.regs:
                if isc(r[0]) and r[0] <= o and (not isc(r[1]) or o + n <= r[0] + r[1]) and intv and not self.overlap(b, o, n):
                    self.region_store(b, r, sub(o, r[0]), n, v); return
            if b.cells.get(o, (None,))[0] != n: self.clear(st, b, o, n)
            elif b.regs: self.punch(b, o, n)
            b.cells[o] = (n, v); return
        u = None
        if b.cells or not b.regs: u = self.unique(st, o)
        if u is not None: return self.store(st, Ptr(p.b, u), n, v)
        if v is UNDEF or not isinstance(v, (int, z3.BitVecRef)): raise Unsupported("store of a non-integer at a symbolic offset")
        if not b.regs and not b.cells: b.regs = ((0, b.size, BUndef()),)
        if b.regs and not b.cells and all(isc(r[0]) for r in b.regs):
            self.whole(st, p.b); b = st.wblk(p.b)
            r = b.regs[0]; self.region_store(b, r, sub(o, r[0]), n, v); return
        for r in b.regs:
            if self.decide(st, AND(ule(r[0], o), ule(add(o, n), add(r[0], r[1])))):
                self.region_store(b, r, sub(o, r[0]), n, v); return
        cand = [(co, cv) for co, (cs, cv) in sorted(b.cells.items()) if cs == n and isinstance(cv, (int, z3.BitVecRef))]
        if cand and not b.regs:
            if self.decide(st, OR(*[eq(o, co) for co, _ in cand])):
                for co, cv in cand: b.cells[co] = (n, ite(eq(o, co), v, cv, 8 * n))
                return
        raise Unsupported("write at a symbolic offset of " + b.name)

    def region_store(self, b, r, rel, n, v):
        node = r[2]
        for i in range(n):
            byte = (v >> (8 * i)) & 255 if isc(v) else (v if n == 1 else z3.Extract(8 * i + 7, 8 * i, v))
            node = BStore(node, add(rel, i), byte)
        b.regs = tuple((x[0], x[1], node) if x is r else x for x in b.regs)

    def punch(self, b, o, n):
        out = []
        for r in b.regs:
            s, sz, node = r
            if isc(s) and isc(sz):
                if o + n <= s or s + sz <= o: out.append(r); continue
                if s < o: out.append((s, o - s, node))
                if o + n < s + sz: out.append((o + n, s + sz - (o + n), shifted(node, o + n - s)))
            elif isc(s) and s >= o + n: out.append(r)
            elif isc(s) and o >= s:
                if s < o: out.append((s, o - s, node))
                out.append((o + n, sub(add(s, sz), o + n), shifted(node, o + n - s)))
            else: out.append(r)
        b.regs = tuple(out)

    def clear(self, st, b, o, n):
        for co, cs, cv in self.overlap(b, o, n):
            del b.cells[co]
            if co >= o and co + cs <= o + n: continue
            v = cv
            if v is UNDEF: continue
            if isinstance(v, MaybeUndef): continue
            if isinstance(v, (Ptr, PInt, Obj)): continue      # a partly overwritten pointer is undefined
            v = self.int_of(v, cs * 8)
            if co < o: b.cells[co] = (o - co, (v & ((1 << (8 * (o - co))) - 1)) if isc(v) else z3.Extract(8 * (o - co) - 1, 0, v))
            if co + cs > o + n:
                k = o + n - co
                b.cells[o + n] = (cs - k, (v >> (8 * k)) if isc(v) else z3.Extract(8 * cs - 1, 8 * k, v))
        if b.regs: self.punch(b, o, n)

    def content(self, st, bid, start, n):
        """Byte node with the current content of [start, start+n) relative to start (n may be symbolic)."""
        b = st.mem[bid]
        if b.arr is not None:
            r = b.arr.content(self, st, b, start, n)
            if r is not None: return r
        if isc(start):
            if not b.cells and not b.regs: return BUndef()
            r = self.covering(b, start, n)
            if r is not None: return shifted(r[2], sub(start, r[0]))
            end = b.size if not isc(n) else start + n
            node = BUndef()
            for r in b.regs:
                node = BCopy(node, sub(r[0], start), r[1], r[2], 0)
            # cells and regions never overlap
            cs_ = [(co, c) for co, c in sorted(b.cells.items()) if not (isc(end) and co >= end) and co + c[0] > start]
            if sum(c[0] for _, c in cs_) > 4096: raise Unsupported("content of " + b.name)
            for co, (cs, cv) in cs_:
                if isinstance(cv, MaybeUndef): cv = self.define(st, cv)
                if cv is UNDEF or isinstance(cv, (Ptr, PInt, Obj)): continue
                cv = self.int_of(cv, cs * 8)
                for i in range(cs):
                    if start <= co + i:
                        node = BStore(node, co + i - start, (cv >> (8 * i)) & 255 if isc(cv) else (cv if cs == 1 else z3.Extract(8 * i + 7, 8 * i, cv)))
            return node
        if not b.cells and all(isc(r[0]) for r in b.regs): return shifted(self.whole(st, bid), start)
        u = self.unique(st, start)
        if u is not None: return self.content(st, bid, u, n)
        raise Unsupported("content at a symbolic offset of " + b.name)

    def covering(self, b, start, n):
        """The region that holds all of [start, start+n), or None."""
        for r in b.regs:
            if same(r[0], start) and same(r[1], n): return r
            if isc(r[0]) and isc(start) and r[0] <= start:
                if isc(r[1]) and isc(n):
                    if start + n <= r[0] + r[1]: return r
                elif self.to_end(b, r): return r          # an access inside the block
        return None
    def to_end(self, b, r):
        e = add(r[0], r[1])
        return same(e, b.size) or same(fold(e) if not isc(e) else e, fold(b.size) if not isc(b.size) else b.size)

    def whole(self, st, bid):
        """Byte node of the whole block, which then has this one region only (int cells and regions are joined)."""
        b = st.mem[bid]
        if len(b.regs) == 1 and not b.cells and same(b.regs[0][0], 0) and self.to_end(b, b.regs[0]): return b.regs[0][2]
        if any(not isinstance(c[1], (int, z3.ExprRef)) and c[1] is not UNDEF for c in b.cells.values()): raise Unsupported("bytes of " + b.name)
        node = self.content(st, bid, 0, b.size)
        b = st.wblk(bid); b.cells = {}; b.regs = ((0, b.size, node),)
        return node

    def put_content(self, st, bid, start, n, node, so=0):
        """Overwrite [start, start+n) with node's bytes from so."""
        b = st.wblk(bid)
        if not b.cells:
            self.whole(st, bid); b = st.wblk(bid)
            r = b.regs[0] if b.regs else (0, b.size, BUndef())
            b.regs = ((0, b.size, BCopy(r[2], start, n, node, so)),); return
        if not isc(start):
            u = self.unique(st, start)
            if u is None: raise Unsupported("bulk write at a symbolic offset of " + b.name)
            start = u
        r = self.covering(b, start, n)
        if r is not None:
            b.regs = tuple((x[0], x[1], BCopy(x[2], sub(start, x[0]), n, node, so)) if x is r else x for x in b.regs); return
        if isc(n) and n <= 64:
            for i in range(n):
                v, d = bread(node, add(so, i))
                if isc(d) and not d: v = UNDEF
                elif not isc(d): raise Unsupported("bulk write of partly undefined bytes")
                self.store(st, Ptr(bid, start + i), 1, v)
            return
        if isc(n):
            self.clear(st, b, start, n)
            b.regs = b.regs + ((start, n, BCopy(BUndef(), 0, n, node, so)),); return
        # a symbolic number of bytes: everything from start on becomes one region
        if any(co + c[0] > start and not isinstance(c[1], (int, z3.ExprRef)) and c[1] is not UNDEF for co, c in b.cells.items()): raise Unsupported("bulk write over pointers in " + b.name)
        base = self.content(st, bid, start, sub(b.size, start))
        if not isc(b.size):
            for co in [co for co, c in b.cells.items() if co + c[0] > start]:
                if co < start: raise Unsupported("bulk write into a cell of " + b.name)
                del b.cells[co]
            nr = []
            for r in b.regs:
                if not isc(r[0]): raise Unsupported("bulk write over regions of " + b.name)
                if r[0] >= start: continue
                if isc(r[1]) and r[0] + r[1] <= start: nr.append(r)
                else: nr.append((r[0], start - r[0], r[2]))
            b.regs = tuple(nr)
        else: self.clear(st, b, start, b.size - start)
        b.regs = b.regs + ((start, sub(b.size, start), BCopy(base, 0, n, node, so)),)

    def memcpy(self, st, d, s, n, ins=None, kind="memcpy"):
        if not isc(n):
            n = fold(n)
        if isc(n) and n == 0: return
        if not isc(n):
            # a zero-length copy touches nothing
            if isinstance(d, Ptr) and isinstance(s, Ptr) and (d.b == 0 or s.b == 0):
                self.require(st, eq(n, 0), "safety", kind + " with a null pointer only for zero bytes", ins); return
        sb = self.access(st, s, n, kind + " source", ins); db = self.access(st, d, n, kind + " target", ins, True)
        if kind == "memcpy" and s.b == d.b and not same(s.o, d.o):
            self.require(st, OR(ule(add(s.o, n), d.o), ule(add(d.o, n), s.o)), "safety", "memcpy ranges do not overlap", ins)
        if isc(n) and isc(s.o) and isc(d.o) and sb.arr is None and db.arr is None:
            # move cells
            src = [(co, cs, cv) for co, (cs, cv) in sb.cells.items() if co < s.o + n and s.o < co + cs]
            regs = [r for r in sb.regs if isc(r[0]) and not (r[0] >= s.o + n) and not (isc(r[1]) and r[0] + r[1] <= s.o)]
            if any(co < s.o or co + cs > s.o + n for co, cs, cv in src):
                for i in range(n):
                    pass
                vals = [self.load(st, Ptr(s.b, s.o + i), 1, "i") for i in range(n)]
                for i, v in enumerate(vals): self.store(st, Ptr(d.b, d.o + i), 1, v)
                return
            if sb.lazy is not None:
                have = sum(cs for _, cs, _ in src)
                if have < n and not regs:
                    q = s.o
                    while q < s.o + n:        # materialise in 8-byte steps
                        if q not in sb.cells and not self.overlap(sb, q, 1):
                            k = min(8, s.o + n - q); self.load(st, Ptr(s.b, q), k, "m")
                            q += k
                        else: q = max([co + cs for co, cs, _ in self.overlap(sb, q, 1)])
                    sb = st.mem[s.b]
                    src = [(co, cs, cv) for co, (cs, cv) in sb.cells.items() if co < s.o + n and s.o < co + cs]
            b = st.wblk(d.b)
            if not b.cells and len(b.regs) == 1 and self.to_end(b, b.regs[0]) and same(b.regs[0][0], 0) and n > 0 and \
               all(isinstance(cv, (int, z3.ExprRef)) for _, _, cv in src):
                self.put_content(st, d.b, d.o, n, self.content(st, s.b, s.o, n)); return
            self.clear(st, b, d.o, n)
            delta = d.o - s.o
            for r in regs:
                lo = max(r[0], s.o); hi = s.o + n
                if isc(r[1]): hi = min(hi, r[0] + r[1])
                b.regs = b.regs + ((lo + delta, hi - lo, shifted(r[2], lo - r[0])),)
            for co, cs, cv in src: b.cells[co + delta] = (cs, cv)
            return
        node = self.content(st, s.b, s.o, n)
        self.put_content(st, d.b, d.o, n, node)

    def memset(self, st, d, v, n, ins=None):
        if isc(n) and n == 0: return
        self.access(st, d, n, "memset", ins, True)
        b = st.wblk(d.b)
        if isc(n) and isc(d.o):
            if isc(v) and not (not b.cells and len(b.regs) == 1 and self.to_end(b, b.regs[0])):
                self.clear(st, b, d.o, n)
                b.regs = b.regs + ((d.o, n, BFill(BUndef(), 0, n, v)),)
                return
        if not b.cells:
            node = self.whole(st, d.b); b = st.wblk(d.b)
            b.regs = ((0, b.size, BFill(node, d.o, n, v)),); return
        raise Unsupported("memset")

    # ------------------------------------------------------------------ values
    def val(self, fr, o):
        if o[0] == "r": return fr.regs[o[1]]
        return self.const_val(fr.st, o)

    def trunc(self, v, fb, tb):
        if v is UNDEF: return v
        if isc(v):
            r = v & ((1 << tb) - 1); return bool(r) if tb == 1 else r
        if isinstance(v, PInt): raise Unsupported("truncated pointer")
        if tb == 1:
            c = as_bool_ite(v)
            if c is not None: return c
            return z3.Extract(0, 0, v) == 1
        if z3.is_app_of(v, z3.Z3_OP_ZERO_EXT):
            a = v.arg(0)
            if a.size() == tb: return a
        return z3.Extract(tb - 1, 0, v)
    def zext(self, v, fb, tb):
        if v is UNDEF or isinstance(v, (PInt, Ptr, MaybeUndef)): return v
        if isc(v): return int(v)
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal(1, tb), z3.BitVecVal(0, tb))
        c = as_bool_ite(v)
        if c is not None: return z3.If(c, z3.BitVecVal(1, tb), z3.BitVecVal(0, tb))
        return z3.ZeroExt(tb - fb, v) if tb > fb else v
    def sext(self, v, fb, tb):
        if v is UNDEF: return v
        if isc(v): return sgn(int(v), fb) & ((1 << tb) - 1)
        if isinstance(v, z3.BoolRef): return z3.If(v, z3.BitVecVal((1 << tb) - 1, tb), z3.BitVecVal(0, tb))
        return z3.SignExt(tb - fb, v)

    def binop(self, st, op, a, b, bits, flags, ins):
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, (PInt, Ptr)) or isinstance(b, (PInt, Ptr)): return self.ptr_arith(st, op, a, b)
        M = (1 << bits) - 1
        if bits == 1:
            if op == "and": return AND(a, b)
            if op == "or": return OR(a, b)
            if op in ("xor", "add", "sub"):
                if isc(a): return NOT(b) if a else b
                if isc(b): return NOT(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if isc(a) and isc(b):
            sa, sb = sgn(a, bits), sgn(b, bits)
            if op in ("add", "sub", "mul"):
                r = sa + sb if op == "add" else sa - sb if op == "sub" else sa * sb
                if flags & 1: self.require(st, -(1 << (bits - 1)) <= r < (1 << (bits - 1)), "safety", "no signed overflow in " + op, ins)
                if flags & 2:
                    u = a + b if op == "add" else a - b if op == "sub" else a * b
                    self.require(st, 0 <= u <= M, "safety", "no unsigned overflow in " + op, ins)
                return r & M
            if op in ("udiv", "urem", "sdiv", "srem"):
                self.require(st, b != 0, "safety", "no division by zero", ins)
                if op == "udiv": return a // b
                if op == "urem": return a % b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0): q = -q
                if op == "sdiv": return q & M
                return (sa - q * sb) & M
            if op in ("shl", "lshr", "ashr"):
                self.require(st, b < bits, "safety", "shift amount in range", ins)
                if op == "shl":
                    r = (a << b)
                    if flags & 1: self.require(st, sgn(r & M, bits) == sgn(a, bits) << b, "safety", "no signed overflow in shl", ins)
                    return r & M
                if op == "lshr": return a >> b
                return (sa >> b) & M
            if op == "and": return a & b
            if op == "or": return a | b
            if op == "xor": return a ^ b
        if op == "add":
            if flags & 1: self.require(st, AND(z3.BVAddNoOverflow(bv(a, bits), bv(b, bits), True), z3.BVAddNoUnderflow(bv(a, bits), bv(b, bits))), "safety", "no signed overflow in add", ins)
            if flags & 2: self.require(st, z3.BVAddNoOverflow(bv(a, bits), bv(b, bits), False), "safety", "no unsigned overflow in add", ins)
            return add(a, b, bits)
        if op == "sub":
            if flags & 1: self.require(st, AND(z3.BVSubNoOverflow(bv(a, bits), bv(b, bits)), z3.BVSubNoUnderflow(bv(a, bits), bv(b, bits), True)), "safety", "no signed overflow in sub", ins)
            if flags & 2: self.require(st, z3.BVSubNoUnderflow(bv(a, bits), bv(b, bits), False), "safety", "no unsigned overflow in sub", ins)
            return sub(a, b, bits)
        if op == "mul":
            if flags & 1: self.require(st, AND(z3.BVMulNoOverflow(bv(a, bits), bv(b, bits), True), z3.BVMulNoUnderflow(bv(a, bits), bv(b, bits))), "safety", "no signed overflow in mul", ins)
            if flags & 2: self.require(st, z3.BVMulNoOverflow(bv(a, bits), bv(b, bits), False), "safety", "no unsigned overflow in mul", ins)
            return mul(a, b, bits)
        A, B = bv(a, bits), bv(b, bits)
        if op in ("udiv", "urem", "sdiv", "srem"):
            self.require(st, B != 0, "safety", "no division by zero", ins)
            if op[0] == "s": self.require(st, z3.Not(z3.And(A == (1 << (bits - 1)), B == M)), "safety", "no signed overflow in division", ins)
            if op == "sdiv" and isc(b) and b & (b - 1) == 0 and 0 < b < (1 << (bits - 1)):
                d = exact_div(a, b, bits)
                if d is not None: return d
            return fold({"udiv": z3.UDiv, "urem": z3.URem, "sdiv": lambda x, y: x / y, "srem": z3.SRem}[op](A, B))
        if op in ("shl", "lshr", "ashr"):
            self.require(st, ult(b, bits, bits), "safety", "shift amount in range", ins)
            if op == "shl":
                r = A << B
                if flags & 1: self.require(st, (r >> B) == A, "safety", "no signed overflow in shl", ins)
                return r
            return z3.LShR(A, B) if op == "lshr" else A >> B
        if op == "and":
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    if x == 0: return 0
                    if x == M: return y
                    if x == 1:
                        c = as_bool_ite(y)
                        if c is not None: return y
            return A & B
        if op == "or":
            if isc(a) and a == 0: return b
            if isc(b) and b == 0: return a
            return A | B
        if op == "xor":
            for x, y in ((a, b), (b, a)):
                if isc(x):
                    if x == 0: return y
                    if x == 1:
                        c = as_bool_ite(y)
                        if c is not None: return z3.If(c, z3.BitVecVal(0, bits), z3.BitVecVal(1, bits))
            return A ^ B
        raise Unsupported(op)

    def ptr_arith(self, st, op, a, b):
        if isinstance(a, Ptr): a = PInt(a)
        if isinstance(b, Ptr): b = PInt(b)
        if op == "sub" and isinstance(a, PInt) and isinstance(b, PInt):
            if a.p.b == b.p.b: return sub(a.p.o, b.p.o)
            raise Unsupported("difference of pointers into different objects")
        if op == "add" and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(Ptr(a.p.b, add(a.p.o, b)))
        if op == "add" and isinstance(b, PInt) and not isinstance(a, PInt): return PInt(Ptr(b.p.b, add(b.p.o, a)))
        if op == "sub" and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(Ptr(a.p.b, sub(a.p.o, b)))
        if op == "and" and isinstance(a, PInt) and isc(b) and b in (1, 7) and isc(a.p.o):
            # blocks and code are at least 8-aligned (code 2-aligned: low bit clear)
            return a.p.o & b
        if op in ("urem", "and") and isinstance(a, PInt) and isc(b):
            m = b if op == "urem" else b + 1
            blk = st.mem.get(a.p.b)
            if blk is not None and m > 0 and m & (m - 1) == 0:
                # the address of a block is a multiple of its alignment and otherwise unknown
                return self.binop(st, "and", add(a.p.o, self.block_base_rem(blk, m)), m - 1, 64, 0, None)
        raise Unsupported("pointer arithmetic " + op)

    def block_base_rem(self, blk, m):
        if blk.align >= m: return 0
        k = (blk.id, "base"); r = self.base_rem.get(k)
        if r is None: r = self.base_rem[k] = self.sym("base", 64)
        return self.binop(None, "and", r, (m - 1) & ~(blk.align - 1), 64, 0, None)

    def gep(self, st, t, base, idx, bits):
        if base is UNDEF: return UNDEF
        if isinstance(base, PInt): base = base.p
        if isinstance(base, int) and base == 0: base = NULL
        if not isinstance(base, Ptr): raise Unsupported("gep on %r" % (base,))
        off = base.o; first = True; cur = t
        for i, bts in zip(idx, bits):
            if i is UNDEF: return UNDEF
            if isinstance(i, PInt): raise Unsupported("pointer as index")
            if not first and cur.kind == "struct":
                off = add(off, cur.offs[i]); cur = cur.elems[i]; continue
            if bts < 64: i = self.sext(i, bts, 64)
            es = cur if first else cur.elem
            off = add(off, mul(i, es.size)); cur = es; first = False
        return Ptr(base.b, off)

    def icmp(self, st, pred, a, b, t, ins):
        if a is UNDEF or b is UNDEF: return UNDEF
        if t.kind == "pointer" or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            if isinstance(a, PInt): a = a.p
            if isinstance(b, PInt): b = b.p
            if isc(a):
                if a == 0: a = NULL
                else: a = None
            if isc(b):
                if b == 0: b = NULL
                else: b = None
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported("comparison of pointer and integer")
            if a.b == b.b:
                if pred == "eq": return eq(a.o, b.o)
                if pred == "ne": return NOT(eq(a.o, b.o))
                return self.icmp_int(pred, a.o, b.o, 64)
            if pred == "eq": return False
            if pred == "ne": return True
            # pointers into different objects: some fixed total order
            A = self.addr_of(st, a); B = self.addr_of(st, b)
            return self.icmp_int(pred, A, B, 64)
        return self.icmp_int(pred, a, b, t.bits)

    def addr_of(self, st, p):
        if p.b == 0: return p.o
        a = z3.BitVec("addr!%d" % p.b, 64)
        return add(a, p.o)

    def icmp_int(self, pred, a, b, bits):
        if bits == 1:
            if pred == "eq": return NOT(z3.Xor(zb(a), zb(b))) if not (isc(a) or isc(b)) else (b if isc(a) and a else NOT(b) if isc(a) else a if b else NOT(a))
            if pred == "ne": return z3.Xor(zb(a), zb(b)) if not (isc(a) or isc(b)) else (NOT(b) if isc(a) and a else b if isc(a) else NOT(a) if b else a)
            a = self.zext(a, 1, 8); b = self.zext(b, 1, 8); bits = 8
            if pred[0] == "s": a, b = b, a
            return self.icmp_int("u" + pred[1:], a, b, 8)
        if isc(a) and isc(b):
            if pred[0] == "s": a, b = sgn(a, bits), sgn(b, bits)
            return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[pred if pred in ("eq", "ne") else pred[1:]]
        for x, y in ((a, b), (b, a)):
            if isc(x) and x in (0, 1) and pred in ("eq", "ne"):
                c = as_bool_ite(y)
                if c is not None: return c if (x == 1) == (pred == "eq") else NOT(c)
        if same(a, b): return pred in ("eq", "uge", "ule", "sge", "sle")
        A, B = bv(a, bits), bv(b, bits)
        return {"eq": lambda: A == B, "ne": lambda: A != B, "ugt": lambda: z3.UGT(A, B), "uge": lambda: z3.UGE(A, B),
                "ult": lambda: ult(a, b, bits), "ule": lambda: ule(a, b, bits), "sgt": lambda: A > B, "sge": lambda: A >= B,
                "slt": lambda: A < B, "sle": lambda: A <= B}[pred]()

    # Integers of at most 53 bits are exactly representable: what is done to such a double is done to the integer.
    def note_exact(self, fp, x): self.xint[fp.get_id()] = (fp, x); return fp
    def exact_int(self, v):
        """The integer (54 bits) of which v is the conversion, or None."""
        e = self.xint.get(v.get_id())
        if e is not None: return z3.SignExt(54 - e[1].size(), e[1])
        if z3.is_fp_value(v) and v.sort() == F64 and not v.isNaN() and not v.isInf():
            r = float(eval_fp(v))
            if r == int(r) and abs(r) < 2.0 ** 53: return z3.BitVecVal(int(r), 54)
        return None
    def fabs(self, v):
        e = self.xint.get(v.get_id()); r = fabs_of(v)
        if e is not None and e[1].size() <= 52:
            w = e[1].size() + 1; x = z3.SignExt(1, e[1]); self.note_exact(r, z3.If(x < 0, -x, x))
        return r
    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if a.get_id() in self.xint or b.get_id() in self.xint:
            x, y = self.exact_int(a), self.exact_int(b)
            if x is not None and y is not None:
                r = {"ord": lambda: True, "uno": lambda: False, "true": lambda: True, "false": lambda: False, "eq": lambda: x == y, "ne": lambda: x != y, "gt": lambda: x > y, "ge": lambda: x >= y, "lt": lambda: x < y, "le": lambda: x <= y}[pred if pred in ("ord", "uno", "true", "false") else pred[1:]]()
                return r if isinstance(r, bool) else fold(r)
            k = b if x is not None else a
            if z3.is_fp_value(k) and k.isInf(): 
                if pred[1:] in ("eq", "ne"): return pred[1:] == "ne"
                if pred[1:] in ("lt", "le", "gt", "ge"): return (pred[1] == "l") == ((k is b) != k.isNegative())
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}
        if pred == "ord": return z3.Not(un)
        if pred == "uno": return un
        if pred == "one": return z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))
        if pred == "une": return z3.Not(z3.fpEQ(a, b))
        if pred == "ueq": return z3.Or(un, z3.fpEQ(a, b))
        if pred == "true": return True
        if pred == "false": return False
        r = base[pred[1:]](a, b)
        return fold(r if pred[0] == "o" else z3.Or(un, r))

    # ------------------------------------------------------------------ control
    def cross_regs(self, fn):
        c = getattr(self, "_cross", None)
        if c is None: c = self._cross = {}
        r = c.get(fn.name)
        if r is None:
            defb = {}; r = set(fn.params)
            for b in fn._blocks:
                for i in b.ins: defb[i.id] = b.idx
            for b in fn._blocks:
                for i in b.ins:
                    ops = list(i.ops)
                    if i.op == "phi": ops = []            # resolved on the edge
                    if i.op in ("call", "invoke"): ops.append(i.x[0])
                    for o in ops:
                        if o[0] == "r" and defb.get(o[1]) != b.idx: r.add(o[1])
                    if i.op == "phi":
                        for pb, o in i.x:
                            if o[0] == "r" and defb.get(o[1]) != pb: r.add(o[1])
                    if i.op == "phi": r.add(i.id)
            c[fn.name] = r
        return r

    def run_fn(self, st, fn, args):
        """Execute fn's body. -> list of (state, return value)"""
        blocks = self.mod.blocks(fn)
        if fn.byval:
            args = list(args)
            for i, t in fn.byval.items():
                nb = self.new_blk(st, "alloca", t.size, "byval")
                self.memcpy(st, Ptr(nb.id, 0), args[i], t.size); args[i] = Ptr(nb.id, 0)
        self.fn_executed[fn.name] = self.fn_executed.get(fn.name, 0) + 1
        if len(self.stack) > 150: raise Unsupported("call depth")
        self.stack.append(fn.name)
        try:
            fr = Frame({i: a for i, a in enumerate(args)}, st)
            out, exits = self.run_region(fn, None, [(0, fr)])
            res = []
            for f, v in out:
                for a in f.allocas: f.st.mem.pop(a, None)
                res.append((f.st, v))
            return self.merge_results(res)
        except Unsupported as e:
            if not hasattr(e, "at"): e.at = list(self.stack)
            raise
        finally:
            self.stack.pop()

    def merge_results(self, res):
        out = []
        if self.nomerge: return list(res)
        for st, v in res:
            for i, (s2, v2) in enumerate(out):
                m = self.merge(s2, st, [v2], [v])
                if m is not None:
                    out[i] = (m[0], m[1][0]); break
            else: out.append((st, v))
        return out

    def run_region(self, fn, allowed, starts, header=None):
        """Run from the given (block, frame) pairs. allowed: set of blocks (None: all).
        -> (returns [(frame, value)], leaving [(pred, target, frame)])"""
        rpo = fn.rpo; pend = {}; heap = []; rets = []; leaving = []; visits = {}
        cross = self.cross_regs(fn)
        def push(bi, fr):
            l = pend.get(bi)
            if l is None:
                l = pend[bi] = []; heapq.heappush(heap, (rpo[bi], bi))
            for i, g in enumerate(l):
                if not self.nomerge and g.allocas == fr.allocas:
                    m = self.merge(g.st, fr.st, g.regs, fr.regs, cross)
                    if m is not None:
                        l[i] = Frame(m[1], m[0], g.allocas); return
            l.append(fr)
        for bi, fr in starts: push(bi, fr)
        first = header is not None
        while heap:
            _, bi = heapq.heappop(heap)
            frames = pend.pop(bi)
            if bi in fn.loops and not (first and bi == header):
                spec = self.loop_policy(fn, bi)
                if spec is not None:
                    for fr in frames:
                        for pred, tgt, f2, isret, v in self.cut_loop(fn, bi, fr, spec):
                            if isret: rets.append((f2, v))
                            elif allowed is not None and (tgt not in allowed or tgt == header): leaving.append((pred, tgt, f2))
                            else: push(tgt, f2)
                    continue
                visits[bi] = visits.get(bi, 0) + 1
                if visits[bi] > self.max_unroll: raise Unsupported("loop in %s needs an invariant" % shorten(demangle(fn.name)))
                self.loops_unrolled[fn.name] = max(self.loops_unrolled.get(fn.name, 0), visits[bi])
            first = False
            for fr in frames:
                self.npaths += 1
                if self.npaths > self.max_paths * 50: raise Unsupported("too many paths")
                for kind, x, f2 in self.run_block(fn, bi, fr):
                    if kind == "ret": rets.append((f2, x))
                    else:
                        tgt = x
                        f2 = self.edge(fn, bi, tgt, f2, cross)
                        if f2 is None: continue
                        if allowed is not None and (tgt not in allowed or tgt == header): leaving.append((bi, tgt, f2))
                        else: push(tgt, f2)
        return rets, leaving

    def edge(self, fn, pred, tgt, fr, cross):
        vals = []
        for i in fn._blocks[tgt].ins:
            if i.op != "phi": break
            for pb, o in i.x:
                if pb == pred: vals.append((i.id, self.val(fr, o))); break
        regs = {k: v for k, v in fr.regs.items() if k in cross}
        for k, v in vals: regs[k] = v
        return Frame(regs, fr.st, fr.allocas)

    def merge(self, a, b, ra, rb, cross=None):
        """Merge two states (and register lists/dicts); None if impossible. a and b are consumed on success."""
        # ghost
        ga, gb = a.ghost, b.ghost
        if ga.keys() != gb.keys(): return None
        gdiff = []
        for k in ga:
            if ga[k] is not gb[k] and not same(ga[k], gb[k]): gdiff.append(k)
        # path conditions
        i = 0; n = min(len(a.pc), len(b.pc))
        while i < n and (a.pc[i] is b.pc[i] or a.pc[i].eq(b.pc[i])): i += 1
        if i < len(a.pc) or i < len(b.pc):
            A = AND(*a.pc[i:]); B = AND(*b.pc[i:])
        else: A = True; B = True
        if A is True and B is True: c = True
        elif A is True: c = NOT(B)
        else: c = A
        isd = isinstance(ra, dict)
        def mval(x, y):
            """-> (ok, merged)"""
            if x is y or same(x, y): return True, x
            if x is UNDEF or y is UNDEF:
                if x is UNDEF:
                    if isinstance(y, MaybeUndef): return True, MaybeUndef(AND(NOT(c), y.cond), y.val)
                    return True, MaybeUndef(NOT(c), y)
                if isinstance(x, MaybeUndef): return True, MaybeUndef(AND(c, x.cond), x.val)
                return True, MaybeUndef(c, x)
            if isinstance(x, MaybeUndef) or isinstance(y, MaybeUndef):
                xv, xc = (x.val, x.cond) if isinstance(x, MaybeUndef) else (x, True)
                yv, yc = (y.val, y.cond) if isinstance(y, MaybeUndef) else (y, True)
                ok, v = mval(xv, yv)
                if not ok: return False, None
                return True, MaybeUndef(OR(AND(c, xc), AND(NOT(c), yc)), v)
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.b != y.b: return False, None
                return True, Ptr(x.b, ite(c, x.o, y.o, 64))
            if isinstance(x, PInt) and isinstance(y, PInt):
                ok, v = mval(x.p, y.p)
                return ok, PInt(v) if ok else None
            if isinstance(x, (int, z3.ExprRef)) and isinstance(y, (int, z3.ExprRef)):
                bits = None
                for q in (x, y):
                    if isinstance(q, z3.BitVecRef): bits = q.size()
                    if isinstance(q, (bool, z3.BoolRef)): bits = 1
                    if isinstance(q, z3.FPRef): bits = "fp"
                if bits is None: bits = 64 if not hasattr(self, "_mbits") else self._mbits
                if bits == "fp":
                    if not (isinstance(x, z3.FPRef) and isinstance(y, z3.FPRef) and x.sort() == y.sort()): return False, None
                    return True, z3.If(c, x, y)
                if isinstance(x, z3.BitVecRef) and isinstance(y, z3.BitVecRef) and x.size() != y.size(): return False, None
                return True, ite(c, x, y, bits)
            if isinstance(x, Obj) and isinstance(y, Obj):
                m = x.merge(c, y); return m is not None, m
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) == len(y):
                r = []
                for p, q in zip(x, y):
                    ok, v = mval(p, q)
                    if not ok: return False, None
                    r.append(v)
                return True, type(x)(r)
            return False, None
        if c is True and (gdiff): return None
        for k in gdiff:
            if not isinstance(ga[k], (int, z3.ExprRef, tuple)): return None
        # registers
        if isd:
            keys = set(ra) | set(rb); rm = {}
            for k in keys:
                if cross is not None and k not in cross: continue
                x, y = ra.get(k, UNDEF), rb.get(k, UNDEF)
                self._mbits = self.reg_bits(k)
                ok, v = mval(x, y)
                if not ok: return None
                rm[k] = v
        else:
            rm = []
            for x, y in zip(ra, rb):
                self._mbits = 64
                if isinstance(x, int) and isinstance(y, int) and not same(x, y) and x is not y: self._mbits = self.ret_bits()
                if x is None and y is None: rm.append(None); continue
                ok, v = mval(x, y)
                if not ok: return None
                rm.append(v)
        # memory
        upd = {}
        for k in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(k), b.mem.get(k)
            if x is y: continue
            if x is None: upd[k] = y; continue
            if y is None: continue
            if x.alive != y.alive or not same(x.size, y.size) or x.kind != y.kind or x.lazy is not y.lazy or (x.arr is not y.arr and not (x.arr is not None and y.arr is not None and x.arr.same(y.arr))): return None
            nc = {}
            for o in x.cells.keys() | y.cells.keys():
                p, q = x.cells.get(o), y.cells.get(o)
                if p is None or q is None:
                    if x.lazy is not None or x.regs or y.regs: return None
                    r = p or q
                    other = y if q is None else x
                    if self.overlap(other, o, r[0]): return None
                    nc[o] = (r[0], MaybeUndef(c if q is None else NOT(c), r[1]) if r[1] is not UNDEF and not isinstance(r[1], MaybeUndef) else UNDEF if r[1] is UNDEF else MaybeUndef(AND(c if q is None else NOT(c), r[1].cond), r[1].val))
                    if isinstance(r[1], Obj): return None
                    continue
                if p[0] != q[0]: return None
                self._mbits = p[0] * 8
                ok, v = mval(p[1], q[1])
                if not ok: return None
                nc[o] = (p[0], v)
            if len(x.regs) != len(y.regs): return None
            nr = []
            for p, q in zip(x.regs, y.regs):
                if not same(p[0], q[0]) or not same(p[1], q[1]): return None
                nr.append((p[0], p[1], p[2] if p[2] is q[2] else BIte(c, p[2], q[2])))
            z = x.clone(a.tok); z.cells = nc; z.regs = tuple(nr); upd[k] = z
        ng = {}
        for k in gdiff:
            self._mbits = 64
            ok, v = mval(ga[k], gb[k])
            if not ok: return None
            ng[k] = v
        a.ghost.update(ng); a.mem.update(upd)
        rest = OR(A, B)
        a.pc = a.pc[:i] + ([rest] if rest is not True else [])
        a.decided = {k: v for k, v in a.decided.items() if k in b.decided and b.decided[k][1] == v[1]}
        return a, rm

    def reg_bits(self, k):
        fn = self.mod.fns[self.stack[-1]]
        t = getattr(self, "_rt", None)
        if t is None: t = self._rt = {}
        m = t.get(fn.name)
        if m is None:
            m = t[fn.name] = {i.id: i.ty for b in fn._blocks for i in b.ins}
            for i, pt in enumerate(fn.ty.params): m[i] = pt
        ty = m.get(k)
        return ty.bits if ty is not None and ty.kind == "int" else 64
    def ret_bits(self):
        fn = self.mod.fns[self.stack[-1]]
        return fn.ty.ret.bits if fn.ty.ret.kind == "int" else 64

    def run_block(self, fn, bi, fr):
        """-> list of ("ret", value, frame) / ("br", target, frame)"""
        out = []; work = [(0, fr)]
        ins = fn._blocks[bi].ins
        while work:
            pc, fr = work.pop()
            n = len(ins)
            while pc < n:
                i = ins[pc]
                if i.op == "phi": pc += 1; continue
                try:
                    r = self.step(fn, i, fr)
                except Fork as f:
                    s1, s2 = self.fork_on(fr.st, f.cond)
                    f2 = Frame(dict(fr.regs), s2, fr.allocas)
                    work.append((pc, f2)); continue
                except PathEnd:
                    break
                if r is None: pc += 1; continue
                k = r[0]
                if k == "multi":
                    for st2, v in r[1]:
                        f2 = Frame(dict(fr.regs), st2, fr.allocas)
                        f2.regs[i.id] = v; work.append((pc + 1, f2))
                    break
                if k == "ret": out.append(("ret", r[1], fr)); break
                if k == "br":
                    for tgt, st2 in r[1]:
                        out.append(("br", tgt, Frame(dict(fr.regs) if len(r[1]) > 1 else fr.regs, st2, fr.allocas)))
                    break
        return out

    def step(self, fn, i, fr):
        op = i.op; st = fr.st; V = self.val
        if op == "load":
            if self.on_access is not None: self.note_access(st, V(fr, i.ops[0]), i.ty.size, False, i)
            fr.regs[i.id] = self.load_ty(st, V(fr, i.ops[0]), i.ty, i)
        elif op == "store":
            if self.on_access is not None: self.note_access(st, V(fr, i.ops[1]), i.x.size, True, i)
            self.store_ty(st, V(fr, i.ops[1]), i.x, V(fr, i.ops[0]), i)
        elif op == "alloca":
            n = V(fr, i.ops[0]) if i.ops else 1
            b = self.new_blk(st, "alloca", i.x.size * n, "local of " + shorten(demangle(fn.name))); b.align = i.flags or 1
            fr.allocas = fr.allocas + (b.id,); fr.regs[i.id] = Ptr(b.id, 0)
        elif op == "getelementptr":
            bits = [self.op_bits(fn, o) for o in i.ops[1:]]
            fr.regs[i.id] = self.gep(st, i.x, V(fr, i.ops[0]), [V(fr, o) for o in i.ops[1:]], bits)
        elif op == "call" or op == "invoke":
            return self.call_ins(fn, i, fr)
        elif op == "br":
            if not i.ops: return ("br", [(i.x[0], st)])
            c = V(fr, i.ops[0])
            if isinstance(c, MaybeUndef): c = self.define(st, c, i)
            if c is UNDEF:
                self.require(st, False, "safety", "branch on an initialised value", i)
            if not isc(c): c = fold(c)
            if isc(c): return ("br", [(i.x[0] if c else i.x[1], st)])
            k = c.get_id(); d = st.decided.get(k)
            if d is not None: return ("br", [(i.x[0] if d[1] else i.x[1], st)])
            t = self.feasible(st, c)
            if not t:
                st.decided[k] = (c, False); return ("br", [(i.x[1], st)])
            f = self.feasible(st, z3.Not(c))
            if not f:
                st.decided[k] = (c, True); return ("br", [(i.x[0], st)])
            s1, s2 = self.fork_on(st, c)
            return ("br", [(i.x[0], s1), (i.x[1], s2)])
        elif op == "ret":
            return ("ret", V(fr, i.ops[0]) if i.ops else None)
        elif op in ("add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor"):
            if i.ty.kind != "int": raise Unsupported("vector arithmetic")
            fr.regs[i.id] = self.binop(st, op, V(fr, i.ops[0]), V(fr, i.ops[1]), i.ty.bits, i.flags, i)
        elif op == "icmp":
            fr.regs[i.id] = self.icmp(st, i.x, V(fr, i.ops[0]), V(fr, i.ops[1]), i.flags, i)
        elif op == "fcmp":
            fr.regs[i.id] = self.fcmp(i.x, V(fr, i.ops[0]), V(fr, i.ops[1]))
        elif op == "trunc":
            fr.regs[i.id] = self.trunc(V(fr, i.ops[0]), i.x.bits, i.ty.bits)
        elif op == "zext":
            v = V(fr, i.ops[0]); fr.regs[i.id] = self.zext(v, i.x.bits, i.ty.bits)
        elif op == "sext":
            v = V(fr, i.ops[0]); r = fr.regs[i.id] = self.sext(v, i.x.bits, i.ty.bits)
            if isinstance(r, z3.BitVecRef) and isinstance(v, z3.BitVecRef) and v.size() <= 53: self.narrow[r.get_id()] = (r, v)
        elif op == "ptrtoint":
            v = V(fr, i.ops[0])
            fr.regs[i.id] = UNDEF if v is UNDEF else (v.o if isinstance(v, Ptr) and v.b == 0 else PInt(v))
        elif op == "inttoptr":
            fr.regs[i.id] = self.as_ptr(V(fr, i.ops[0]))
        elif op in ("bitcast", "freeze", "addrspacecast"):
            v = V(fr, i.ops[0])
            if op == "bitcast" and i.ty.kind == "int" and isinstance(v, z3.FPRef): v = z3.fpToIEEEBV(v)
            elif op == "bitcast" and i.ty.kind == "double" and not isinstance(v, z3.FPRef): v = z3.fpBVToFP(bv(v, 64), F64)
            fr.regs[i.id] = v
        elif op == "select":
            c = V(fr, i.ops[0]); a = V(fr, i.ops[1]); b = V(fr, i.ops[2])
            if isinstance(c, MaybeUndef): c = self.define(st, c, i)
            if c is UNDEF: self.require(st, False, "safety", "select on an initialised value", i)
            if isc(c): fr.regs[i.id] = a if c else b
            elif same(a, b): fr.regs[i.id] = a
            elif isinstance(a, (int, z3.ExprRef)) and isinstance(b, (int, z3.ExprRef)): fr.regs[i.id] = ite(c, a, b, i.ty.bits if i.ty.kind == "int" else None)
            elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b: fr.regs[i.id] = Ptr(a.b, ite(c, a.o, b.o, 64))
            else: fr.regs[i.id] = a if self.decide(st, c) else b
        elif op == "switch":
            v = V(fr, i.ops[0])
            if isinstance(v, MaybeUndef): v = self.define(st, v, i)
            if v is UNDEF: self.require(st, False, "safety", "switch on an initialised value", i)
            d, cases = i.x
            if isc(v):
                for c, t in cases:
                    if c[1] == v: return ("br", [(t, st)])
                return ("br", [(d, st)])
            bits = v.size(); res = []; groups = {}
            for c, t in cases: groups.setdefault(t, []).append(c[1])
            cond_def = AND(*[v != z3.BitVecVal(c[1], bits) for c, _ in cases])
            for t, vals in groups.items():
                c = OR(*[v == z3.BitVecVal(x, bits) for x in vals])
                if t == d: cond_def = OR(cond_def, c); continue
                if self.feasible(st, c):
                    s2 = st.fork(); s2.pc.append(c); res.append((t, s2))
            if self.feasible(st, cond_def):
                s2 = st.fork(); s2.pc.append(zb(cond_def)); res.append((d, s2))
            if not res: raise PathEnd()
            return ("br", res)
        elif op == "extractvalue":
            v = V(fr, i.ops[0])
            for x in i.x: v = UNDEF if v is UNDEF else v[x]
            fr.regs[i.id] = v
        elif op == "insertvalue":
            a = V(fr, i.ops[0]); b = V(fr, i.ops[1])
            fr.regs[i.id] = self.insval(a, i.ty, i.x, b)
        elif op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = V(fr, i.ops[0]), V(fr, i.ops[1])
            if a is UNDEF or b is UNDEF: fr.regs[i.id] = UNDEF
            else: fr.regs[i.id] = z3.simplify({"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](RNE, a, b))
        elif op == "fneg": fr.regs[i.id] = z3.fpNeg(V(fr, i.ops[0]))
        elif op == "sitofp" or op == "uitofp":
            v = V(fr, i.ops[0]); S = F64 if i.ty.kind == "double" else F32 if i.ty.kind == "float" else None
            if S is None: raise Unsupported("int to " + i.ty.kind)
            if v is UNDEF: fr.regs[i.id] = UNDEF
            else:
                x = bv(int(v) if isc(v) else (self.zext(v, 1, 8) if isinstance(v, z3.BoolRef) else v), i.x.bits)
                fr.regs[i.id] = z3.simplify(z3.fpSignedToFP(RNE, x, S) if op[0] == "s" else z3.fpUnsignedToFP(RNE, x, S))
                if S is F64 and op[0] == "s" and not isc(v) and isinstance(v, z3.BitVecRef):
                    nr = self.narrow.get(v.get_id(), (None, v))[1]
                    if nr.size() <= 53: self.note_exact(fr.regs[i.id], nr)
        elif op in ("fptosi", "fptoui"):
            v = V(fr, i.ops[0]); n = i.ty.bits
            if v is UNDEF: fr.regs[i.id] = UNDEF
            else:
                e = self.xint.get(v.get_id()) if op == "fptosi" else None
                if e is not None and e[1].size() <= n:
                    r = fold(z3.SignExt(n - e[1].size(), e[1])); fr.regs[i.id] = r
                    if not isc(r): self.narrow[r.get_id()] = (r, e[1])
                    return None
                S = v.sort(); tr = z3.fpRoundToIntegral(RTZ, v)
                if op == "fptosi": lo, hi = -(2.0 ** (n - 1)), 2.0 ** (n - 1)
                else: lo, hi = 0.0, 2.0 ** n
                self.require(st, z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(tr, z3.FPVal(lo, S)), z3.fpLT(tr, z3.FPVal(hi, S))), "safety", "float to integer conversion in range", i)
                fr.regs[i.id] = fold(z3.fpToSBV(RTZ, v, z3.BitVecSort(n)) if op == "fptosi" else z3.fpToUBV(RTZ, v, z3.BitVecSort(n)))
        elif op == "fpext":
            v = V(fr, i.ops[0])
            if i.ty.kind == "double": fr.regs[i.id] = UNDEF if v is UNDEF else z3.fpFPToFP(RNE, v, F64)
            else: fr.regs[i.id] = v      # long double carries the double value
        elif op == "fptrunc":
            v = V(fr, i.ops[0])
            if i.ty.kind == "float" and v is not UNDEF: v = z3.fpFPToFP(RNE, v, F32)
            fr.regs[i.id] = v
        elif op == "atomicrmw":
            p, v = V(fr, i.ops[0]), V(fr, i.ops[1])
            if self.on_access is not None: self.note_access(st, p, i.ty.size, True, i, True)
            old = self.load_ty(st, p, i.ty, i)
            new = v if i.x == "xchg" else self.binop(st, i.x, old, v, i.ty.bits, 0, i)
            self.store_ty(st, p, i.ty, new, i); fr.regs[i.id] = old
        elif op == "cmpxchg":
            p, c, nv = (V(fr, o) for o in i.ops)
            if self.on_access is not None: self.note_access(st, p, i.x.size, True, i, True)
            old = self.load_ty(st, p, i.x, i); e = self.icmp(st, "eq", old, c, i.x, i)
            if isc(e): ok = bool(e)
            else: ok = self.decide(st, e)
            if ok: self.store_ty(st, p, i.x, nv, i)
            fr.regs[i.id] = [old, ok]
        elif op == "fence": pass
        elif op == "unreachable":
            self.require(st, False, "safety", "unreachable code is not reached", i)
        else: raise Unsupported("instruction " + op)
        return None

    def note_access(self, st, p, n, write, i, atomic=False):
        if isinstance(p, Ptr): self.on_access(self, st, p, n, write, atomic or bool(i.atomic), i)
    def note_obligation(self, kind, label, where, ok):
        o = Oblig(kind, label, where); o.status = "proved" if ok else "failed"; o.backend = "lockset"; self.obligs.append(o)

    def op_bits(self, fn, o):
        if o[0] == "i": return o[2].bits
        if o[0] == "r":
            self.stack.append(fn.name)
            try: return self.reg_bits(o[1])
            finally: self.stack.pop()
        return 64

    def insval(self, a, t, idx, b):
        n = len(t.elems) if t.kind == "struct" else t.n
        if a is UNDEF: a = [UNDEF] * n
        a = list(a)
        if len(idx) == 1: a[idx[0]] = b
        else: a[idx[0]] = self.insval(a[idx[0]], t.elems[idx[0]] if t.kind == "struct" else t.elem, idx[1:], b)
        return a

    # ------------------------------------------------------------------ calls
    def handler_for(self, fn):
        h = self.cache_contract.get(fn.name, 0)
        if h != 0: return h
        h = self.exact.get(fn.name)
        if h is None:
            d = demangle(fn.name); fn.dname = d
            for rx, hh in self.contracts:
                if rx.search(d): h = hh; break
        self.cache_contract[fn.name] = h
        return h

    def call_ins(self, fn, i, fr):
        st = fr.st
        callee = i.x[0]
        if callee[0] == "f": f = callee[1]
        else:
            if callee[0] == "asm": raise Unsupported("inline asm")
            p = self.val(fr, callee)
            if isinstance(p, MaybeUndef): p = self.define(st, p, i)
            if p is UNDEF or (isinstance(p, Ptr) and p.b == 0):
                self.require(st, False, "safety", "call through a null or uninitialised function pointer", i)
            if isinstance(p, Obj): f = p
            elif isinstance(p, Ptr) and p.b in self.fnblk: f = self.fnblk[p.b]
            else: raise Unsupported("call of %r" % (p,))
        args = [self.val(fr, o) if o[0] != "md" else None for o in i.ops]
        r = self.call(st, f, args, i)
        if isinstance(r, Multi):
            if len(r) == 1:
                fr.st = r[0][0]; fr.regs[i.id] = r[0][1]; return None
            if not r: raise PathEnd()
            return ("multi", r)
        fr.regs[i.id] = r
        return None

    def call(self, st, f, args, ins=None):
        """-> value, or Multi of (state, value). Forks inside a handler are transactional."""
        if isinstance(f, Obj): h = f.call; name = repr(f)
        else:
            name = f.name
            if name.startswith("llvm."): return self.intrinsic(st, name, args, ins)
            h = self.handler_for(f)
        if h is not None:
            snap = st.fork()
            try:
                r = h(self, st, args, ins, f)
            except Fork:
                st.become(snap); raise
            if r is not NotImplemented:
                key = getattr(h, "cname", None) or (shorten(demangle(name)))
                self.contracts_used[key] = self.contracts_used.get(key, 0) + 1
                if isinstance(r, list) and not isinstance(r, Multi) and r and isinstance(r[0], tuple) and isinstance(r[0][0], State): r = Multi(r)
                return r
            st.become(snap)
        if f.decl: raise Unsupported("call of %s, which has neither body nor contract" % shorten(demangle(name)))
        return Multi(self.run_fn(st, f, args))

    def call_ptr(self, st, p, args, ins=None):
        p = self.as_ptr(p)
        if p.b not in self.fnblk: raise Unsupported("indirect call")
        r = self.call(st, self.fnblk[p.b], args, ins)
        return r if isinstance(r, Multi) else Multi([(st, r)])

    def intrinsic(self, st, name, a, ins):
        n = name[5:]
        if n.startswith(("memcpy.inline", "memcpy.")): self.memcpy(st, a[0], a[1], a[2], ins); return None
        if n.startswith("memmove."): self.memcpy(st, a[0], a[1], a[2], ins, "memmove"); return None
        if n.startswith("memset."): self.memset(st, a[0], a[1], a[2], ins); return None
        if n.startswith(("lifetime.", "dbg.", "assume", "donothing", "experimental.noalias", "invariant.")): return None
        if n.startswith("expect."): return a[0]
        if n.startswith("launder.invariant.group") or n.startswith("strip.invariant.group"): return a[0]
        if n.startswith("objectsize."): return (1 << 64) - 1
        if n.startswith("trap") or n.startswith("debugtrap"):
            return self.do_abort(st, "trap", ins)
        bits = ins.ty.bits if ins is not None and ins.ty.kind == "int" else 64
        if n.startswith(("umax.", "umin.", "smax.", "smin.")):
            p = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[n[:4]]
            return ite(self.icmp_int(p, a[0], a[1], bits), a[0], a[1], bits)
        if n.startswith("abs."):
            return ite(self.icmp_int("slt", a[0], 0, bits), self.binop(st, "sub", 0, a[0], bits, 1 if a[1] else 0, ins), a[0], bits)
        if n.startswith("fabs."): return a[0] if a[0] is UNDEF else self.fabs(a[0])
        if n.startswith("is.fpclass."):
            v = a[0]; m = a[1]; r = []
            if v.get_id() in self.xint and m in (3, 0x204, 0x207, 0x1f8): return m == 0x1f8
            if m & 3: r.append(z3.fpIsNaN(v))
            if m & 4: r.append(z3.And(z3.fpIsInf(v), z3.fpIsNegative(v)))
            if m & 0x200: r.append(z3.And(z3.fpIsInf(v), z3.fpIsPositive(v)))
            nf = z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)))
            if m & 0x1f8 == 0x1f8: r.append(nf)
            elif m & 0x1f8: raise Unsupported("is.fpclass")
            return fold(z3.Or(r))
        if n.startswith(("uadd.with.overflow", "usub.with.overflow", "umul.with.overflow")):
            b = ins.ty.elems[0].bits; op = n[1:4]
            x, y = bv(a[0], b), bv(a[1], b)
            ov = {"add": lambda: z3.Not(z3.BVAddNoOverflow(x, y, False)), "sub": lambda: z3.ULT(x, y), "mul": lambda: z3.Not(z3.BVMulNoOverflow(x, y, False))}[op]()
            return [self.binop(st, op, a[0], a[1], b, 0, ins), fold(ov)]
        if n.startswith("threadlocal.address"): return a[0]
        if n.startswith("fmuladd."): return z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2])
        raise Unsupported("intrinsic " + name)

    def do_abort(self, st, what, ins):
        """The program stops abnormally here."""
        if self.abort_hook is not None:
            self.abort_hook(self, st, what, ins)
        else:
            self.require(st, False, "abort", what, ins)
        self.path_stats["aborted"] += 1
        raise PathEnd()

    # ------------------------------------------------------------------ loops
    def cut_loop(self, fn, h, fr, spec):
        """Replace the loop with header h by its invariant. -> [(pred, target, frame, isret, value)]"""
        from .loops import cut
        return cut(self, fn, h, fr, spec)

def abstract_muls(fs):
    """Weaker formulas: x*C (C odd) becomes f(x) with an inverse g(f(x)) == x, which multiplication by an odd constant has.
    None when there is no such product."""
    facts = []; cache = {}
    def walk(t):
        key = t.get_id()
        if key in cache: return cache[key][1]
        if z3.is_quantifier(t): r = t
        else:
            ch = [walk(c) for c in t.children()]
            r = t.decl()(*ch) if ch and any(a is not b for a, b in zip(ch, t.children())) else t
            if z3.is_app_of(r, z3.Z3_OP_BMUL) and r.num_args() == 2:
                for ci in (0, 1):
                    if z3.is_bv_value(r.arg(ci)) and r.arg(ci).as_long() & 1 and r.arg(ci).as_long() > 1:
                        n = r.size(); C = r.arg(ci).as_long(); x = r.arg(1 - ci); S = z3.BitVecSort(n)
                        f = z3.Function("mul%d_%x" % (n, C), S, S); g = z3.Function("div%d_%x" % (n, C), S, S)
                        r = f(x); facts.append(g(r) == x); break
        cache[key] = (t, r)
        return r
    out = [walk(f) for f in fs]
    return facts + out if facts else None

def shifted(node, k):
    if isc(k) and k == 0: return node
    if isinstance(node, BConst) and isc(k): return BConst(node.s[k:])
    if isinstance(node, (BUndef, BZero)): return node
    return BCopy(BUndef(), 0, (1 << 64) - 1, node, k)

def as_bool_ite(v):
    """c if v is If(c, 1, 0)"""
    if isinstance(v, z3.BitVecRef) and z3.is_app_of(v, z3.Z3_OP_ITE):
        a, b = v.arg(1), v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            if a.as_long() == 1 and b.as_long() == 0: return v.arg(0)
            if a.as_long() == 0 and b.as_long() == 1: return z3.Not(v.arg(0))
    if isinstance(v, z3.BitVecRef) and z3.is_app_of(v, z3.Z3_OP_ZERO_EXT): return as_bool_ite(v.arg(0))
    return None

def exact_div(a, b, bits):
    """a / b when a is syntactically a multiple of b and no wrap matters (power of two, used for pointer differences)"""
    if z3.is_app_of(a, z3.Z3_OP_BMUL) and a.num_args() == 2:
        for x, y in ((a.arg(0), a.arg(1)), (a.arg(1), a.arg(0))):
            if z3.is_bv_value(x) and x.as_long() == b: return None
    return None

def shorten(d):
    d = d.replace("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string")
    d = d.replace("std::basic_string_view<char, std::char_traits<char> >", "std::string_view")
    d = d.replace("std::__cxx11::", "std::").replace("(anonymous namespace)::", "")
    return d if len(d) < 140 else d[:137] + "..."
