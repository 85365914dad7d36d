from vf.driver import Check, H
N = ("ConstructSame", "ConstructBase", "ConstructConst", "ConstructConstBase", "AssignSame", "AssignBase", "AssignConst", "AssignConstBase", "SelfAndNull", "Sources", "ReusedStorage", "DuringDestruction")
CHECK = Check("C13", ["C13.cc"], [], [H(n) for n in N],
    assumptions=["weak pointers are used from one thread at a time (the class gives no other guarantee)"])
