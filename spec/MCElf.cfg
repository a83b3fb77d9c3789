SPECIFICATION Spec
CONSTANT MaxSecs = 2
CONSTANT Big = FALSE
CONSTANT StrTab = FALSE
CONSTANT Lists = {}
INVARIANTS OneSig OrderFree Emit
CHECK_DEADLOCK FALSE
