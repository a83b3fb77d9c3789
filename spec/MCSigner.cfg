SPECIFICATION Spec
CONSTANT MaxDigests = 2
CONSTANT MaxContent = 2
INVARIANTS AddKeeps Emit
CHECK_DEADLOCK FALSE
