from vf.driver import Check, H
CHECK = Check("C11", ["C11.cc"], ["rst/status/status.cc"], [H(n) for n in ("TryS", "TryO", "AssignS", "AssignO", "UnwrapS", "UnwrapO", "CreateS", "CreateO")])
