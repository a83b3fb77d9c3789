SPECIFICATION Spec
CONSTANT MaxDepth = 4
CONSTANT Narrow = TRUE
CONSTANT Forms = {3, 4}
INVARIANTS OneEach NoTrace Fresh Stale Emit
CHECK_DEADLOCK FALSE
