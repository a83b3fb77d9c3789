SPECIFICATION Spec
CONSTANT MaxDepth = 2
CONSTANT Narrow = FALSE
CONSTANT Forms = {1, 2, 3, 4, 5}
INVARIANTS OneEach NoTrace Fresh Stale Emit
CHECK_DEADLOCK FALSE
