SPECIFICATION Spec
CONSTANT MaxSupplied = 2
CONSTANT MaxRoots = 2
CONSTANT Who = {"a256", "b384"}
INVARIANTS NoRootNoTrust OnlyFromRoots NeverTrusted Valid Emit
CHECK_DEADLOCK FALSE
