SPECIFICATION RSpec
CONSTANT MaxSections = 16
INVARIANTS RSane REmit
CHECK_DEADLOCK FALSE
