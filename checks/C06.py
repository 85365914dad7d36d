from vf.driver import Check, H
from vf.lists import *
L0 = rst_loops(LoopSpec(fold_cands, fold_facts, fold_bounds, auto=False, split=True), r"^std::accumulate|^std::for_each")
def L(ex):
    f = L0(ex)
    return lambda fn, h: f(fn, h) if getattr(ex, "cur_fold", None) else None
CHECK = Check("C06", ["C06.cc"], ["rst/stl/hash.cc"], [H(n) for n in ("Empty", "One", "StepInjectiveInSecond", "StepInjectiveInFirst", "ElementHash")] + [H("Fold", loops=L)])
