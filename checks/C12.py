from vf.driver import Check, H
CHECK = Check("C12", ["C12.cc"], [], [H(n) for n in ("NotNullRaw", "NullableRaw", "NullableRawAssign", "NullableRawConstruct", "NotNullFromNullableAssign", "Compare",
    "NotNullUnique", "NullableUnique", "NotNullShared", "NullableShared")] +
    [H(k + b + op) for k in ("Raw", "Unique", "Shared") for b in ("", "Base") for op in ("NullableAssign", "NullableConstruct", "NotNull")])
