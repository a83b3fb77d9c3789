SPECIFICATION Spec
CONSTANT MaxPairs = 3
INVARIANTS Inverse SizeRight Emit
CHECK_DEADLOCK FALSE
