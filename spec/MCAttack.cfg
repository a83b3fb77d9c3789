SPECIFICATION Spec
CONSTANT MaxDepth = 2
CONSTANT Starts = {"v2", "chain", "stamp", "both", "two", "old"}
CONSTANT Thorough = 1
CONSTANT Wide = FALSE
INVARIANTS NoForgery NoBlindTrust Authentic Emit
VIEW TheView
CHECK_DEADLOCK FALSE
