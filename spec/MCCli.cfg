SPECIFICATION Spec
CONSTANT MaxDepth = 1
CONSTANT Which = "sign"
CONSTANT Big = FALSE
INVARIANTS OneBlock Emit
PROPERTIES Harmless InPlaceSame
CHECK_DEADLOCK FALSE
