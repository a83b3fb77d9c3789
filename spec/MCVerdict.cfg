SPECIFICATION VSpec
CONSTANT MaxDepth = 0
CONSTANT Starts = {}
CONSTANT Thorough = 1
CONSTANT Wide = FALSE
CONSTANT MaxSubs = 2
CONSTANT MaxSigners = 2
CONSTANT Kinds2 = {"good", "content", "untrusted", "unbound", "badsig", "nosig", "chain"}
INVARIANTS Strict Nobody NoBlindTrust Emit
CHECK_DEADLOCK FALSE
