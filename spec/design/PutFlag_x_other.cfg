SPECIFICATION Spec
CONSTANTS Fence = "other"
Net = "weak"
OneWindow = FALSE
Cells = 2
Rounds = 3
INVARIANTS DataWithFlag
CHECK_DEADLOCK FALSE
