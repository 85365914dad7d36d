from vf.driver import Check, H
from vf.lists import *
def cands(cx): return sum_cands(cx) + fmt_cands(cx)
def facts(cx): return sum_facts(cx) + fmt_facts(cx)
def bounds(cx): return sum_bounds(cx)
L = rst_loops(LoopSpec(cands, facts, bounds, auto=False, split=True), r"^std::accumulate|^std::for_each|^std::copy")
CHECK = Check("C02", ["C02.cc"], ["rst/strings/format.cc"], [H("Malformed", loops=L), H("Bytes", loops=L), H("NoArguments")])
