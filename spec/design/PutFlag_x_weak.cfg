SPECIFICATION Spec
CONSTANTS Fence = "none"
Net = "weak"
OneWindow = TRUE
Cells = 2
Rounds = 3
INVARIANTS DataWithFlag
CHECK_DEADLOCK FALSE
