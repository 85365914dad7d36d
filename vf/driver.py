"""Builds, proves, runs and reports one property check."""
import json, multiprocessing, os, re, shutil, subprocess, sys, tempfile, time, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
CLANG = ["clang++-18", "-std=c++17", "-D_GLIBCXX_ALWAYS_INLINE=inline", "-fno-exceptions", "-fno-rtti", "-I" + REPO, "-I" + VERIF + "/contracts", "-O0", "-Xclang", "-disable-O0-optnone",
         "-gline-tables-only", "-fno-discard-value-names", "-w", "-c", "-emit-llvm"]
GXX = ["g++", "-std=c++17", "-fno-exceptions", "-fno-rtti", "-I" + REPO, "-I" + VERIF + "/contracts", "-O1", "-g", "-w", "-c"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

class H:
    """One contract harness: the function harness_<name> of the check's file."""
    def __init__(self, name, setup=None, loops=None, budget=240, iters=3000, unroll=None, prove_timeout=20, proof=True, native=True, note="", labels=True, args=None):
        self.name = name; self.setup = setup; self.loops = loops; self.budget = budget; self.iters = iters; self.unroll = unroll
        self.prove_timeout = prove_timeout; self.proof = proof; self.native = native; self.note = note; self.labels = labels; self.args = args or []

class Check:
    def __init__(self, pid, files, sources, harnesses, functions=(), assumptions=(), trusted=(), setup=None, defines=(), native_flags=(), native_files=None,
                 san=None, native_secs=8, fuzz_secs=60, libs=(), bounded=(), known=None, replaced=(), level="proof", rule=None):
        self.level = level; self.rule = rule
        self.pid = pid; self.files = files; self.sources = sources; self.harnesses = harnesses; self.functions = functions
        self.assumptions = list(assumptions); self.trusted = list(trusted); self.setup = setup; self.defines = list(defines)
        self.native_flags = list(native_flags); self.native_files = native_files or []; self.san = SAN if san is None else san
        self.native_secs = native_secs; self.fuzz_secs = fuzz_secs; self.libs = list(libs); self.bounded = list(bounded); self.replaced = tuple(replaced)

def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)

class BuildError(Exception): pass

def spawn_all(cmds):
    ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    err = []
    for c, p in ps:
        o, _ = p.communicate()
        if p.returncode: err.append("%s\n%s" % (" ".join(c), o[-4000:]))
    if err: raise BuildError("\n".join(err))

def sources_of(ck):
    return [(os.path.join(VERIF, "contracts", f), os.path.basename(f)) for f in ck.files] + [(os.path.join(REPO, s), s.replace("/", "_")) for s in ck.sources]

def build_bc(ck, d):
    outs = []; cmds = []
    for src, n in sources_of(ck):
        o = os.path.join(d, n + ".bc"); outs.append(o)
        cmds.append(CLANG + ck.defines + ["-DVERIF_SYMBOLIC", src, "-o", o])
    spawn_all(cmds)
    allbc = os.path.join(d, "all.bc")
    r = run(["/usr/lib/llvm-18/bin/llvm-link"] + outs + ["-o", allbc])
    if r.returncode: raise BuildError(r.stderr[-3000:])
    if re.search(r"^\s+U (?!.*\btypeinfo)_Z\w*3rst", run(["/usr/lib/llvm-18/bin/llvm-nm", "-u", allbc]).stdout, re.M):
        # some function of the library lives in a source file not listed: take them all
        cmds = []; extra = []
        for src, n in other_sources(ck):
            o = os.path.join(d, n + ".bc"); extra.append(o); cmds.append(CLANG + ck.defines + ["-DVERIF_SYMBOLIC", src, "-o", o])
        try:
            spawn_all(cmds)
            r = run(["/usr/lib/llvm-18/bin/llvm-link"] + outs + extra + ["-o", allbc + "2"])
            if r.returncode == 0: return allbc + "2"
        except BuildError: pass
    return allbc

def other_sources(ck):
    have = set(ck.sources); out = []
    for dp, _, fs in os.walk(os.path.join(REPO, "rst")):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(dp, f), REPO)
            if f.endswith(".cc") and not f.endswith("_test.cc") and rel not in have and rel not in ck.replaced: out.append((os.path.join(REPO, rel), rel.replace("/", "_")))
    return out

def build_native(ck, d):
    outs = []; cmds = []
    for src, n in sources_of(ck) + [(os.path.join(VERIF, "contracts", f), f) for f in ["native.cc"] + ck.native_files]:
        o = os.path.join(d, n + ".o"); outs.append(o)
        cmds.append(GXX + ck.san + ck.defines + ck.native_flags + [src, "-o", o])
    spawn_all(cmds)
    exe = os.path.join(d, "native")
    r = run(["g++"] + ck.san + outs + ["-o", exe, "-rdynamic", "-ldl", "-lpthread"] + ck.libs)
    if r.returncode and "undefined reference" in r.stderr:
        cmds = []; extra = []
        for src, n in other_sources(ck):
            o = os.path.join(d, n + ".o"); extra.append(o); cmds.append(GXX + ck.san + ck.defines + ck.native_flags + [src, "-o", o])
        spawn_all(cmds)
        r = run(["g++"] + ck.san + outs + extra + ["-o", exe, "-rdynamic", "-ldl", "-lpthread"] + ck.libs)
    if r.returncode: raise BuildError(r.stderr[-3000:])
    return exe

NENV = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:detect_leaks=0:exitcode=23:allocator_may_return_null=1:detect_stack_use_after_return=1", UBSAN_OPTIONS="print_stacktrace=0:exitcode=23", TSAN_OPTIONS="exitcode=23:report_signal_unsafe=0:halt_on_error=1")
def run_native(exe, h, seed, iters, secs, tape=None):
    cmd = [exe, h, str(seed), str(iters), str(secs)] + ([tape] if tape else [])
    scratch = tempfile.mkdtemp(prefix="vfn_")
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=secs + 100, env=dict(NENV, VERIF_SCRATCH=scratch), cwd=scratch)
        if "FATAL: ThreadSanitizer" in r.stderr: return 0, ""      # the sanitizer cannot run here
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 1, "FAIL harness=%s hangs\n%s" % (h, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else e.stdout or "")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

# ------------------------------------------------------------------ proofs
def prove_one(bc, ck, h, q):
    """Runs in a child process."""
    t0 = time.time(); res = {"name": h.name, "unsupported": None, "obligs": [], "reached": {}}
    try:
        from .llir import Module, demangle
        from .exe import Exec, shorten
        from .sym import State, Unsupported, PathEnd
        from . import stdc, lists
        mod = Module(bc); ex = Exec(mod); stdc.install(ex)
        ex.prove_timeout = h.prove_timeout * (5 if TIER == "thorough" else 1)
        ex.deadline = time.time() + h.budget * (4 if TIER == "thorough" else 1)
        if h.unroll: ex.max_unroll = h.unroll
        try:
            if ck.setup: ck.setup(ex)
            if h.setup: h.setup(ex)
            if h.loops: ex.loop_policy = h.loops(ex)
            fn = mod.fns["harness_" + h.name]; st = State(); st.ghost["inputs"] = (); st.ghost["sessions"] = 0; st.ghost["entered"] = 0; st.ghost["env"] = 0
            for g in ctors(mod):
                rr = ex.call(st, g, [])
                st = rr[0][0]
            outs = ex.run_fn(st, fn, [])
            for g in ex.at_end: g(ex)
            ex.path_stats["returned"] += len(outs)
            if not outs and not any(o.status != "proved" for o in ex.obligs) and not ex.reached: res["unsupported"] = "no path reaches the end of the harness"
        except Unsupported as e:
            res["unsupported"] = str(e) + " [in " + " <- ".join(shorten(demangle(x)) for x in reversed(getattr(e, "at", [])[-5:])) + "]"
            if os.environ.get("VF_VERBOSE"): traceback.print_exc()
        except PathEnd: pass
        if h.labels and res["unsupported"] is None:
            want = labels_of(mod, fn); miss = sorted(x for x in want if x not in ex.reached and "abort iff: " + x not in ex.reached)
            res["missing"] = miss
        for o in ex.obligs:
            res["obligs"].append((o.kind, o.label, o.where, o.status, o.backend, round(o.secs, 3), o.model, o.reason))
        from .llir import demangle as dm
        res["executed"] = sorted(shorten(dm(n)) for n in ex.fn_executed)
        res["contracts"] = dict(ex.contracts_used); res["paths"] = ex.path_stats; res["queries"] = ex.nq; res["tq"] = ex.tq
        res["reached"] = ex.reached; res["loops_cut"] = ex.loops_cut; res["unrolled"] = {shorten(dm(k)): v for k, v in ex.loops_unrolled.items()}
        res["assumed"] = ex.assumed
    except Exception as e:
        res["unsupported"] = "verifier error: %r" % (e,)
        if os.environ.get("VF_VERBOSE"): traceback.print_exc()
        else: res["trace"] = traceback.format_exc()[-1500:]
    res["secs"] = time.time() - t0
    q.put(res)

def ctors(mod):
    g = mod.globals.get("llvm.global_ctors") if hasattr(mod, "globals") else None
    if g is None: return []
    ini = mod.init(g); out = []
    if ini and ini[0] == "agg":
        for e in ini[1]:
            if e[0] == "agg" and e[1][1][0] == "f": out.append(e[1][1][1])
    return out

def labels_of(mod, fn):
    """Labels of the checks in a harness and the harness-file functions it calls directly."""
    seen = set(); out = set(); work = [fn]
    while work:
        f = work.pop()
        if f.name in seen or f.decl: continue
        seen.add(f.name)
        for b in mod.blocks(f):
            for i in b.ins:
                if i.op not in ("call", "invoke"): continue
                c = i.x[0]
                if c[0] != "f": continue
                if c[1].name in ("verif_check", "verif_cover"):
                    k = 1 if c[1].name == "verif_check" else 0
                    g = i.ops[k]
                    if g[0] == "g":
                        ini = mod.init(g[1])
                        if ini and ini[0] == "str": out.add(bytes(ini[1]).split(b"\0")[0].decode("latin-1"))
        # nested harness helpers are not followed: they may be conditional
    return out

def prove_all(bc, ck):
    import queue as _q
    ctx = multiprocessing.get_context("fork"); todo = [h for h in ck.harnesses if h.proof]; running = []; out = {}
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    while todo or running:
        while todo and len(running) < jobs:
            h = todo.pop(0); q = ctx.Queue(); p = ctx.Process(target=prove_one, args=(bc, ck, h, q)); p.start(); running.append((h, p, q, time.time()))
        nr = []
        for h, p, q, t in running:
            try:
                out[h.name] = q.get(timeout=0.05); p.join(5)
                if p.is_alive(): p.kill()
                continue
            except _q.Empty: pass
            lim = h.budget * (4 if TIER == "thorough" else 1) + 60
            if not p.is_alive():
                try: out[h.name] = q.get(timeout=1)
                except _q.Empty: out[h.name] = {"name": h.name, "unsupported": "the verifier process ended", "obligs": [], "secs": time.time() - t}
                continue
            if time.time() - t > lim:
                p.kill(); out[h.name] = {"name": h.name, "unsupported": "time budget of the proof used up", "obligs": [], "secs": time.time() - t}; continue
            nr.append((h, p, q, t))
        running = nr
    return out

# ------------------------------------------------------------------ verdict
def main(ck):
    t0 = time.time(); pid = ck.pid
    d = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    try: return verdict(ck, d, t0)
    finally: shutil.rmtree(d, ignore_errors=True)

def verdict(ck, d, t0):
    pid = ck.pid
    from concurrent.futures import ThreadPoolExecutor
    only = os.environ.get("VF_ONLY")
    if only: ck.harnesses = [h for h in ck.harnesses if re.fullmatch(only, h.name)]
    with ThreadPoolExecutor(2) as tp:
        fb = tp.submit(build_bc, ck, d); fn = tp.submit(build_native, ck, d) if not os.environ.get("VF_NONATIVE") else None
        bc = exe = None; errs = []
        try: bc = fb.result()
        except BuildError as e: errs.append("clang: " + str(e))
        proofs = prove_all(bc, ck) if bc else {h.name: {"name": h.name, "unsupported": "does not compile for the verifier", "obligs": [], "secs": 0} for h in ck.harnesses if h.proof}
        if fn:
            try: exe = fn.result()
            except BuildError as e: errs.append("g++: " + str(e))
    for e in errs: print("build problem: " + e[:3000])
    viol = []; notes = []; obligations = 0; discharged = 0; stand_in = []
    # native validation of every harness
    nat = {}
    if exe:
        thorough = TIER == "thorough"
        jobs = []
        with ThreadPoolExecutor(8) as tp:
            for h in ck.harnesses:
                if not h.native: continue
                pr = proofs.get(h.name)
                undecided = (pr is None and h.proof) or pr and (pr["unsupported"] or pr.get("missing") or any(o[3] != "proved" for o in pr["obligs"]))
                secs = ck.native_secs * (6 if thorough else 1); iters = h.iters * (20 if thorough else 1)
                if undecided: secs, iters = max(ck.fuzz_secs, secs), iters * 30
                jobs.append((h, tp.submit(run_native, exe, h.name, SEED, iters, secs)))
            for h, j in jobs: nat[h.name] = j.result()
    else: notes.append("native runner not built")
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    def replay_file(tag, text):
        p = os.path.join(OUT, "replay", "%s_%s.txt" % (pid, re.sub(r"\W+", "_", tag)[:60]))
        with open(p, "w") as f: f.write(text)
        return p
    failed_names = {}
    for h in ck.harnesses:
        pr = proofs.get(h.name); bad = []
        if pr:
            obligations += len(pr["obligs"]); discharged += sum(1 for o in pr["obligs"] if o[3] == "proved")
            bad = [o for o in pr["obligs"] if o[3] != "proved"]
            if pr["unsupported"]: notes.append("harness %s: not decided by the verifier (%s)" % (h.name, pr["unsupported"])); stand_in.append(h.name)
            elif pr.get("missing"): notes.append("harness %s: labels never reached: %s" % (h.name, pr["missing"])); stand_in.append(h.name)
        nf = nat.get(h.name)
        text = ""
        if bad:
            text = "property %s\nharness %s (contracts/%s)\nfailed obligations:\n" % (pid, h.name, ck.files[0])
            for o in bad[:20]:
                text += "  [%s] %s: %s\n     at %s\n     verifier: %s\n" % (o[3], o[0], o[1], o[2], o[7])
                if o[6]: text += "     counterexample values:\n" + "".join("       %s\n" % l for l in o[6])
        concrete = None
        if bad and exe and h.native:
            for o in bad[:6]:
                if not o[6]: continue
                tp_ = os.path.join(d, "tape"); open(tp_, "w").write("\n".join(o[6]) + "\n")
                rc, out = run_native(exe, h.name, SEED, 1, 20, tp_)
                if rc == 1 and "FAIL" in out: concrete = (o, out); break
        if concrete:
            p = replay_file(h.name, text + "\nreplayed on the real code with the verifier's values:\n" + concrete[1])
            viol.append((h.name, p, "", concrete[0][1]))
        elif nf and nf[0] == 1:
            p = replay_file(h.name, text + "\nfailing input found on the real code (contracts/%s compiled with sanitizers):\n" % ck.files[0] + nf[1])
            m = re.search(r"violated: (.*)", nf[1])
            viol.append((h.name, p, "", m.group(1) if m else "hang"))
        elif bad:
            p = replay_file(h.name, text + "\nNo failing input was found on the real code.\n")
            viol.append((h.name, p, " no-failing-input-found", bad[0][1] + " @ " + bad[0][2]))
        elif nf and nf[0] not in (0, 1): notes.append("harness %s: native runner status %s" % (h.name, nf[0]))
    for n, p, tail, what in viol: print("failed: harness %s: %s" % (n, what))
    for n in notes: print("note: " + n)
    wall = time.time() - t0
    st = {"done": 0, "checks": 0}
    for k, (rc, out) in nat.items():
        m = re.search(r"STATS done=(\d+) checks=(\d+)", out)
        if m: st["done"] += int(m.group(1)); st["checks"] += int(m.group(2))
    write_evidence(ck, proofs, nat, st, obligations, discharged, stand_in, notes, viol, wall)
    print("%s: %d/%d obligations discharged, %d harnesses (%d by bounded stand-in), native runs %d, %.1fs" % (pid, discharged, obligations, len(ck.harnesses), len(stand_in) + sum(not h.proof for h in ck.harnesses), st["done"], wall))
    if viol:
        print("VIOLATION property=%s replay=%s%s" % (pid, viol[0][1], viol[0][2]) if all(v[2] for v in viol) else
              "VIOLATION property=%s replay=%s" % (pid, next(v[1] for v in viol if not v[2])))
        return 1
    return 0

def write_evidence(ck, proofs, nat, st, obligations, discharged, stand_in, notes, viol, wall):
    executed = set(); contracts = {}; backends = {}; tq = 0; nq = 0; cut = []; unr = {}; assumed = {}; slow = []
    for pr in proofs.values():
        executed |= set(pr.get("executed", ())); tq += pr.get("tq", 0); nq += pr.get("queries", 0)
        for k, v in pr.get("contracts", {}).items(): contracts[k] = contracts.get(k, 0) + v
        cut += pr.get("loops_cut", [])
        for k, v in pr.get("unrolled", {}).items(): unr[k] = max(unr.get(k, 0), v)
        assumed.update(pr.get("assumed", {}))
        for o in pr["obligs"]:
            if o[3] == "proved": backends[o[4]] = backends.get(o[4], 0) + 1
            slow.append((o[5], o[1], o[2]))
    rst = sorted(x for x in executed if "rst::" in x and "harness_" not in x)
    kinds = {}
    for pr in proofs.values():
        for o in pr["obligs"]: kinds.setdefault(o[0], [0, 0]); kinds[o[0]][0] += 1; kinds[o[0]][1] += o[3] == "proved"
    cov = {"obligations": obligations, "discharged": discharged, "checker_cmd": "python3-vt check.py %s (vf/: symbolic execution of the clang IR of /repo's sources; z3 and cvc5 back ends)" % ck.pid,
           "trusted_base": sorted(["contract of " + k for k in contracts]) + ck.trusted + ["clang 18 -O0 front end and llvm-link", "the executor /verif/vf (IR semantics, memory model)", "z3 %s / cvc5" % _z3v(), "libstdc++ inline code not listed as a contract is executed from its own bodies"],
           "harnesses": {h.name: {"proved": bool(h.proof and h.name in proofs and not proofs[h.name]["unsupported"] and not proofs[h.name].get("missing") and all(o[3] == "proved" for o in proofs[h.name]["obligs"])),
                                  "obligations": len(proofs[h.name]["obligs"]) if h.name in proofs else 0, "paths": proofs.get(h.name, {}).get("paths"), "secs": round(proofs.get(h.name, {}).get("secs", 0), 1),
                                  "note": h.note} for h in ck.harnesses},
           "functions_under_contract": rst, "by_kind": {k: {"generated": a, "discharged": b} for k, (a, b) in kinds.items()}, "discharged_by": backends, "solver_seconds": round(tq, 1), "solver_queries": nq,
           "slowest": [{"secs": a, "label": b, "at": c} for a, b, c in sorted(slow, key=lambda x: -x[0])[:3]],
           "loops_cut_by_invariant": cut, "loops_executed_completely": unr,
           "bounded_stand_in": sorted(set(stand_in) | {h.name for h in ck.harnesses if not h.proof}), "bounded_note": "harnesses listed here were run natively on %d seeded inputs in total and are not counted as proved" % st["done"],
           "native_validation": {"runs": st["done"], "checks": st["checks"]}, "notes": notes}
    if ck.rule:
        outs = [o for _, o in nat.values()]
        cov.update(evaluations=sum(int(m.group(1)) for o in outs for m in re.finditer(r"STATS done=(\d+)", o) if "DISTINCT" in o), distinct_nontrivial=sum(int(m.group(1)) for o in outs for m in re.finditer(r"DISTINCT (\d+)", o)), rule=ck.rule,
                   samples=[m.group(1) for o in outs for m in re.finditer(r"SAMPLE (.*)", o)])
    ev = {"property": ck.pid, "tier": TIER, "seed": SEED, "level": ck.level, "coverage": cov, "assumptions": ck.assumptions + ["%s: %s" % kv for kv in sorted(assumed.items())], "wall_s": round(wall, 2), "violations": len(viol)}
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    p = os.path.join(OUT, "evidence", ck.pid + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

def _z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return "?"
