SPECIFICATION RSpec
CONSTANT MaxDigests = 1
CONSTANT MaxContent = 1
INVARIANTS AddKeeps Emit
CHECK_DEADLOCK FALSE
