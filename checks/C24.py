import z3
from vf.driver import Check, H
from vf.loops import LoopSpec
from vf.lists import rst_loops
from vf.sym import bv
import vf.threads as T
def cands(cx):
    """hits == (index < runs), for every pair of loop variables"""
    out = T.pair_cands(cx); q = next((t[2] for t in cx.st.ghost["inputs"] if t[1] == "index"), None)
    if q is None: return out
    vs = [v for v in cx.vars if v.kind == "int" and v.bits == 64]
    for v in vs:
        for w in vs:
            if v is w: continue
            out.append(("%r == (index < %r)" % (v, w), lambda get, it, v=v, w=w: bv(get(v), 64) == z3.If(z3.ULT(bv(q, 64), bv(get(w), 64)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))))
    return out
L = rst_loops(LoopSpec(cands), r"^(harness_|verif_|\(anonymous namespace\)::)|std::condition_variable::wait<")
CHECK = Check("C24", ["C24.cc"], ["rst/task_runner/task_runner.cc", "rst/threading/barrier.cc"],
    [H("AtOnce", loops=L), H("Interleaved", loops=L, native=False, budget=420), H("Later", loops=L, native=False), H("None"), H("Threads", proof=False, iters=400)],
    san=["-fsanitize=thread", "-fno-omit-frame-pointer"], native_files=["spurious.cc"],
    assumptions=["the runner runs what is posted as often as it was posted for (C22, C23)", "the task terminates without exception"])
