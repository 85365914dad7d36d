from vf.driver import Check, H
from vf.paths import setup
CHECK = Check("C20", ["C20.cc"], ["rst/value/value.cc"], [H(n) for n in ("Find", "FindOverloads", "FindInEmpty", "SetThenFind", "OthersKept", "Sizes", "NotAnObject")] + [H("Histories", proof=False)], setup=setup,
    trusted=["std::map<std::string, Value, std::less<>> is a map from texts"],
    assumptions=["induction on the number of components: the call on the rest of the path, which is shorter, is taken by its contract; that the loop is that call is checked"])
