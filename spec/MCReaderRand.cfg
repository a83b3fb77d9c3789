SPECIFICATION RSpec
CONSTANT MaxLen = 24
CONSTANT Want = 10000000
CONSTANT Sizes = {1}
INVARIANTS Whole Short NoErrorNoFailure EmitEnd
CHECK_DEADLOCK FALSE
