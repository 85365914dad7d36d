from vf.driver import Check, H
from vf.values import setup
CHECK = Check("C19", ["C19.cc"], ["rst/value/value.cc"], [H(n) for n in ("Find", "Set", "SetTwice", "Remove", "TypedFind", "IntegerFind", "IntegerFindOther", "NotAnObject")], setup=setup,
    trusted=["std::map<std::string, Value, std::less<>> is a map from texts: find, insert_or_assign, emplace, erase act on the entry of that text and leave every other one"],
    assumptions=["which numbers are integers: IsInt and IsInt64, decided by C16"])
