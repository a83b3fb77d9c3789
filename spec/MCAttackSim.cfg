SPECIFICATION Spec
CONSTANT MaxDepth = 7
CONSTANT Starts = {"v2", "chain", "stamp", "both", "same", "two", "old"}
CONSTANT Thorough = 0
CONSTANT Wide = TRUE
INVARIANTS NoForgery NoBlindTrust Authentic Emit
CHECK_DEADLOCK FALSE
