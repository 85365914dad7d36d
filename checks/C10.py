from vf.driver import Check, H
CHECK = Check("C10", ["C10.cc"], ["rst/status/status.cc"], [H(n) for n in ("Construct", "ConstructInt", "Destroy", "Use", "MoveConstruct", "MoveAssign", "AssignValue", "AssignInt", "AssignStatus", "ConstructFromOk")])
