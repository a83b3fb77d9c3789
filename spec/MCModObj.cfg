SPECIFICATION Spec
CONSTANT MaxDepth = 3
INVARIANTS Consistent Digests Written Emit
CHECK_DEADLOCK FALSE
