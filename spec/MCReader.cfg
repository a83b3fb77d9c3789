SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT Want = 1000000
CONSTANT Sizes = {1, 2, 7, 4096, 1048575, 1048577}
INVARIANTS Whole Short NoErrorNoFailure Emit
CHECK_DEADLOCK FALSE
