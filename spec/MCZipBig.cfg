SPECIFICATION SpecBig
CONSTANT Full = FALSE
INVARIANTS SignedAfter Restores Ordered Emit
CHECK_DEADLOCK FALSE
