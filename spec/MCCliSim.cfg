SPECIFICATION SSpec
CONSTANT MaxDepth = 6
CONSTANT Which = "history"
CONSTANT Big = FALSE
INVARIANTS OneBlock EmitEach
CHECK_DEADLOCK FALSE
