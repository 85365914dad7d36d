from vf.driver import Check, H
from vf.values import setup, copy_cands, size_bounds
from vf.loops import LoopSpec
from vf.lists import rst_loops
L = rst_loops(LoopSpec(copy_cands, bounds=size_bounds))
CHECK = Check("C17", ["C17.cc"], ["rst/value/value.cc"], [H(n, loops=L) for n in ("CloneArray", "CloneEmpty", "CloneObject", "CloneScalar", "CloneArrayValue", "CloneObjectValue")], setup=setup,
    trusted=["std::vector<Value> and std::map<std::string, Value>: emplace_back and try_emplace of a greater key append, iteration visits the entries in order"],
    assumptions=["induction on the nesting: Clone of an element is equal to it and shares nothing with it"])
