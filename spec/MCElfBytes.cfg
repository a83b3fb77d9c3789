SPECIFICATION BSpec
CONSTANT MaxSecs = 2
CONSTANT Big = FALSE
CONSTANT StrTab = FALSE
CONSTANT Lists <- TheLists
CONSTANT Vals = {0, 255, 256, 257}
INVARIANTS BEmit
CHECK_DEADLOCK FALSE
