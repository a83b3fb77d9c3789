SPECIFICATION RSpec
CONSTANT MaxPairs = 4
CONSTANT MaxDamage = 3
INVARIANTS Inverse RoundTrip Emit
CHECK_DEADLOCK FALSE
