SPECIFICATION Spec
CONSTANT MaxBlocks = 3
INVARIANTS NeverAnother Complete Emit
CHECK_DEADLOCK FALSE
