SPECIFICATION CSpec
CONSTANT MaxDepth = 0
CONSTANT Starts = {}
CONSTANT Thorough = 1
CONSTANT Wide = FALSE
CONSTANT MaxSubs = 2
CONSTANT MaxSigners = 2
CONSTANT Kinds2 = {"good", "content", "untrusted", "badsig", "chain"}
INVARIANTS Sound CEmit
CHECK_DEADLOCK FALSE
