SPECIFICATION Spec
CONSTANT Max = 400
INVARIANTS Unique Emit
CHECK_DEADLOCK FALSE
