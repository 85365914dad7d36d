from vf.driver import Check, H
from vf.lists import *
L = rst_loops(LoopSpec(sum_cands, sum_facts, sum_bounds, auto=False), r"^std::accumulate|^std::for_each|^std::copy")
CHECK = Check("C01", ["C01.cc"], ["rst/strings/str_cat.cc"], [H("Size", loops=L), H("Bytes", loops=L)])
