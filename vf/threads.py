"""Contracts of std::mutex and std::condition_variable (monitor rules) for one thread of many.

The executed code is one thread.  Lock gives up what is known of the protected data and assumes the monitor's
invariant (hook ex.monitor_acquire); unlock and wait demand it (hook ex.monitor_release).  Each critical section has a number."""
from .stdc import *

def mkey(st, p): return ("mx", p.b, p.o)
def held(st): return [k for k in st.ghost if isinstance(k, tuple) and k[0] == "mx" and st.ghost[k]]
def hook(ex, name):
    f = ex.mod.fns.get(name)
    return f if f is not None and not f.decl else None
def run_hook(ex, st, name, args, ins, then):
    """Run a harness function, then `then` on every resulting state; -> Multi"""
    f = hook(ex, name)
    if f is None or st.ghost.get("env") or not st.ghost.get("shared"):
        return Multi([(st, then(st))])
    r = ex.call(st, f, args, ins)
    return Multi([(s, then(s)) for s, _ in (r if isinstance(r, Multi) else [(st, r)])])
def interfere(ex, st, ins, then):
    """What the other threads may do here: the harness function verif_env, which calls the real code as another thread."""
    f = hook(ex, "verif_env")
    if f is None or st.ghost.get("env") or not st.ghost.get("shared"):
        return Multi([(st, then(st))])
    mine = {k: st.ghost[k] for k in held(st)}
    st.ghost["env"] = 1
    r = ex.call(st, f, [], ins); out = []
    for s, _ in (r if isinstance(r, Multi) else [(st, r)]):
        s.ghost["env"] = 0; out.append((s, then(s)))
    return Multi(out)

def acquire(ex, st, p, ins, what="lock of a mutex"):
    ex.access(st, p, 40, what, ins)
    if not isc(p.o): raise Unsupported("mutex at a symbolic offset")
    k = mkey(st, p)
    if st.ghost.get(k):
        if st.ghost.get("env"): raise PathEnd()      # the other thread waits for this one
        ex.require(st, False, "safety", "a thread does not lock a mutex it holds", ins)
    def then(s):
        n = add(s.ghost.get("sessions", 0), 1)
        if not s.ghost.get("env"):
            s.ghost["sessions"] = n
            if not same(s.ghost.get("entered"), 1): s.ghost["entered"] = 1
            s.ghost[("ms", p.b, p.o)] = n
        s.ghost[k] = 1
    return interfere(ex, st, ins, then)
def release(ex, st, p, ins, what="unlock of a mutex"):
    ex.access(st, p, 40, what, ins); k = mkey(st, p)
    if not st.ghost.get(k): ex.require(st, False, "safety", "only the holder unlocks a mutex", ins)
    st.ghost.pop(k); st.ghost.pop(("ms", p.b, p.o), None)
def const(r, v): return Multi([(s, v) for s, _ in r])

# ---- accesses of shared objects: every location has one mutex which is held at all its accesses (or is atomic or never written)
@x("verif_share")
def share(ex, st, a, ins, f):
    """From here on other threads use the object of n bytes at p."""
    p, n = a; st.ghost["shared"] = st.ghost.get("shared", ()) + ((p.b, p.o, n),)
    if not hasattr(ex, "races"): ex.races = {}; ex.at_end.append(race_report)
    ex.on_access = on_access
@x("verif_share_heap")
def share_heap(ex, st, a, ins, f):
    """From here on other threads use every heap object that exists now."""
    for b in list(st.mem.values()):
        if b.kind == "heap" and b.alive: share(ex, st, [Ptr(b.id, 0), b.size], ins, f)
@c(r"^std::__atomic_base<.*>::(load|store|exchange|compare_exchange_\w+|fetch_\w+|operator.*)\(", "std::atomic (other threads act before every atomic operation)")
def atomic_op(ex, st, a, ins, f):
    if not st.ghost.get("shared") or st.ghost.get("env") or hook(ex, "verif_env") is None: return NotImplemented
    out = []
    for s, _ in interfere(ex, st, ins, lambda s: None): out += [(t, v) for t, v in ex.run_fn(s, f, a)]
    return Multi(out)
@x("verif_unshare")
def unshare(ex, st, a, ins, f): st.ghost["shared"] = ()
def on_access(ex, st, p, n, write, atomic, ins):
    sh = st.ghost.get("shared")
    if not sh or ex.discover: return
    for b, o, sz in sh:
        if b != p.b: continue
        if not isc(p.o): continue
        if p.o < o or p.o >= o + sz: continue
        locks = frozenset((k[1], k[2]) for k in held(st))
        for q in range(p.o, p.o + n):
            c = ex.races.get((b, q))
            if c is None: c = ex.races[(b, q)] = {"locks": None, "w": False, "na": False, "where": ex.where(ins), "st": st}
            c["locks"] = locks if c["locks"] is None else c["locks"] & locks if not atomic or c["locks"] else c["locks"]
            c["w"] |= write; c["na"] |= not atomic
            if not locks and not atomic: c["where"] = ex.where(ins)
def race_report(ex):
    bad = sorted({c["where"] for c in ex.races.values() if c["w"] and c["na"] and not c["locks"]})
    ex.note_obligation("race", "no data race: every shared location that changes is guarded by one mutex or atomic", "; ".join(bad) if bad else "all shared locations", not bad)

@x("pthread_mutex_lock", "_ZNSt5mutex4lockEv")
def mutex_lock(ex, st, a, ins, f): return const(acquire(ex, st, a[0], ins), 0)
@x("pthread_mutex_unlock", "_ZNSt5mutex6unlockEv")
def mutex_unlock(ex, st, a, ins, f): release(ex, st, a[0], ins); return 0
@x("_ZNSt5mutex8try_lockEv")
def mutex_try(ex, st, a, ins, f):
    o = st.fork(); return Multi(list(const(acquire(ex, st, a[0], ins), True)) + [(o, False)])
@x("_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableC2Ev", "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableD2Ev")
def cv_ctor(ex, st, a, ins, f): ex.access(st, a[0], 48, "condition variable", ins, True)

def lock_mutex(ex, st, ul, ins):
    """The mutex of a std::unique_lock, which must own it."""
    m = ex.load(st, ul, 8, "p"); own = ex.load(st, Ptr(ul.b, add(ul.o, 8)), 1, "i")
    if not isinstance(m, Ptr): raise Unsupported("unique_lock")
    if isc(own) and not own or not st.ghost.get(mkey(st, m)): ex.require(st, False, "safety", "wait with a lock that owns its mutex", ins)
    return m
@x("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE")
def cv_wait(ex, st, a, ins, f):
    """Atomically releases the mutex and blocks; returns, possibly spuriously, with the mutex held."""
    ex.access(st, a[0], 48, "condition variable", ins); m = lock_mutex(ex, st, a[1], ins)
    if st.ghost.get("env"): raise PathEnd()
    out = []
    for s, _ in run_hook(ex, st, "verif_on_wait", [a[0]], ins, lambda s: None):
        release(ex, s, m, ins, "wait"); out += acquire(ex, s, m, ins, "wait")
    return Multi(out)
@x("_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv")
def cv_notify(ex, st, a, ins, f):
    ex.access(st, a[0], 48, "condition variable", ins)
    al = "all" in f.name
    g = hook(ex, "verif_on_notify")
    if g is None or not st.ghost.get("shared"): return
    r = ex.call(st, g, [a[0], al, bool(st.ghost.get("env"))], ins)
    return Multi([(s, None) for s, _ in r]) if isinstance(r, Multi) else None
@x("verif_entered")
def g_entered(ex, st, a, ins, f): 
    v = st.ghost.get("entered", 0)
    if not isc(v): raise Unsupported("entered")
    return v
@x("verif_sessions")
def g_sessions(ex, st, a, ins, f): return st.ghost.get("sessions", 0)

# ---- pairs of loop variables whose difference or sum stays the same
def pair_cands(cx):
    vs = [v for v in cx.vars if v.kind in ("int", "ghost") and isinstance(v.sym, z3.BitVecRef)]; out = []
    for i, v in enumerate(vs):
        for w in vs[i + 1:]:
            if v.bits != w.bits or v.bits < 32: continue
            out.append(("%r - %r unchanged" % (v, w), lambda get, it, v=v, w=w: bv(get(v), v.bits) - bv(get(w), w.bits) == bv(v.entry, v.bits) - bv(w.entry, w.bits)))
            out.append(("%r + %r unchanged" % (v, w), lambda get, it, v=v, w=w: bv(get(v), v.bits) + bv(get(w), w.bits) == bv(v.entry, v.bits) + bv(w.entry, w.bits)))
        out.append(("%r does not grow" % v, lambda get, it, v=v: z3.ULE(bv(get(v), v.bits), bv(v.entry, v.bits))))
    return out

# ---- whole states of heap objects
def _state(st, p):
    b = st.mem[p.b]
    if not isc(p.o) or p.o: raise Unsupported("state of a part of an object")
    return b
@x("verif_copy_state")
def copy_state(ex, st, a, ins, f):
    """*dst becomes *src (both whole heap objects of one type), as another thread's calls would leave it."""
    d, s = _state(st, a[0]), _state(st, a[1]); w = st.wblk(d.id)
    w.cells = dict(s.cells); w.regs = s.regs
@x("verif_same_state")
def same_state(ex, st, a, ins, f):
    d, s = _state(st, a[0]), _state(st, a[1])
    out = []
    if len(d.regs) != len(s.regs): raise Unsupported("objects are not comparable")
    for x, y in zip(d.regs, s.regs):
        if x is y or x[2] is y[2]: continue
        if not (same(x[0], y[0]) and same(x[1], y[1]) and isc(x[1]) and x[1] <= 512): raise Unsupported("objects are not comparable")
        for i in range(x[1]):
            u, v = ex.bytes_read(st, x[2], i, 1), ex.bytes_read(st, y[2], i, 1)
            if u is UNDEF or v is UNDEF or isinstance(u, MaybeUndef) or isinstance(v, MaybeUndef):
                if u is not v: raise Unsupported("objects are not comparable")
            elif not same(u, v): out.append(eq(u, v, 8))
    for o in sorted(d.cells.keys() | s.cells.keys()):
        x, y = d.cells.get(o), s.cells.get(o)
        if x is None or y is None or x[0] != y[0]: raise Unsupported("objects are not comparable: %r %r %r" % (o, x, y))
        x, y = x[1], y[1]
        if same(x, y): continue
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.b != y.b: return False
            out.append(eq(x.o, y.o)); continue
        if isinstance(x, (int, z3.BitVecRef)) and isinstance(y, (int, z3.BitVecRef)): out.append(eq(x, y)); continue
        raise Unsupported("objects are not comparable")
    r = True
    for e in out: r = AND(r, e)
    return r
