from vf.driver import Check, H
V = ["rst/value/value.cc"]
CHECK = Check("C16", ["C16.cc"], V, [H("FromDouble"), H("GetInt64"), H("GetInt"), H("FromInt64"), H("FromInt"), H("DefaultNumber")])
