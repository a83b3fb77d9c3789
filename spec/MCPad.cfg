SPECIFICATION Spec
CONSTANT MaxN = 17500
INVARIANTS Limit Aligned Exact NoNeedlessRefusal Emit
CHECK_DEADLOCK FALSE
