SPECIFICATION RSpec
CONSTANT MaxSecs = 12
CONSTANT MaxReqs = 6
CONSTANT Big = FALSE
INVARIANTS OneSig OrderFree Emit
CHECK_DEADLOCK FALSE
