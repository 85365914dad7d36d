from vf.driver import Check, H
from vf.paths import setup_keys
CHECK = Check("C21", ["C21.cc"], ["rst/preferences/preferences.cc", "rst/preferences/memory_preferences_store.cc", "rst/preferences/preferences_store.cc", "rst/value/value.cc"],
    [H(n) for n in ("LastValue", "OthersKept", "Unregistered", "RegisteredTwice", "OtherType")], setup=setup_keys,
    trusted=["std::map<std::string, Value, std::less<>> is a map from texts"],
    assumptions=["Value::SetPath and FindPath for paths that do not extend each other: C20", "preferences other than the one used and the one observed are not looked at (the map's contract)"])
