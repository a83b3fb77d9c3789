SPECIFICATION Spec
CONSTANT MaxSections = 300
INVARIANTS Sum Sane Emit
CHECK_DEADLOCK FALSE
