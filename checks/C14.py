from vf.driver import Check, H
N = ("WeakPtr", "StdWeakPtr", "StaysAliveDuringCall", "BindingKeepsNothingAlive", "NullWeak", "Helpers")
CHECK = Check("C14", ["C14.cc"], [], [H(n) for n in N],
    assumptions=["the types of bound and call-time arguments are those of the harness (int values, references, unique_ptr, placeholders)"])
