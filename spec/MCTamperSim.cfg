SPECIFICATION Spec
CONSTANT Depth = 6
CONSTANT Forms = {1, 2, 3, 4, 5}
CONSTANT Signs = {"v2", "v2pad", "chain", "both", "stamp"}
INVARIANTS Detected Untouched Emit
CHECK_DEADLOCK FALSE
