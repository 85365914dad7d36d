from vf.driver import Check, H
CHECK = Check("C09", ["C09.cc"], ["rst/status/status.cc"], [H(n) for n in ("Create", "Destroy", "GetErrorUnchecked", "MoveConstruct", "MoveAssign", "DestroyAfterAssign", "MovedFromReuse")])
