from vf.driver import Check, H
CHECK = Check("C05", ["C05.cc"], ["rst/guid/guid.cc", "rst/random/random_device.cc"], [H("IsValid"), H("IsValidOutputString")])
