SPECIFICATION Spec
CONSTANT MaxDepth = 12
INVARIANTS Consistent Digests Written Emit
CHECK_DEADLOCK FALSE
