SPECIFICATION RSpec
CONSTANT MaxBlocks = 3
INVARIANTS RInv
CHECK_DEADLOCK FALSE
