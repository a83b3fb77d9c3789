SPECIFICATION Spec
CONSTANT Bits = {0, 7}
INVARIANTS Binding Unknown Emit
CHECK_DEADLOCK FALSE
