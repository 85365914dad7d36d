from vf.driver import Check, H
CHECK = Check("C30", ["C30.cc"], [], [H(n) for n in ("DeferScopes", "DeferObjects", "DeferState", "TakeFunctionFull", "TakeFunctionEmpty", "NoDestructor")],
    assumptions=["scopes left by an exception are not covered (the library is built without relying on exceptions; the verifier reads code compiled with -fno-exceptions)"])
