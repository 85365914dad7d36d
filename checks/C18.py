from vf.driver import Check, H
from vf.values import setup
CHECK = Check("C18", ["C18.cc"], ["rst/value/value.cc"], [H(n) for n in ("DifferentTypes", "SameType", "Equality", "Derived", "Order")], setup=setup,
    trusted=["std::vector and std::map compare element-wise / lexicographically with the operators of their elements; lexicographic comparison over a strict weak order is one, element-wise equality over a reflexive and symmetric one is reflexive and symmetric",
             "std::string's operators are content equality and a total order"],
    assumptions=["induction on the nesting: the elements of arrays and objects satisfy the property"])
