SPECIFICATION Spec
CONSTANT MaxDepth = 10
CONSTANT Narrow = FALSE
CONSTANT Forms = {1, 2, 3, 4, 5}
INVARIANTS OneEach NoTrace Fresh Stale EmitEnd
CHECK_DEADLOCK FALSE
