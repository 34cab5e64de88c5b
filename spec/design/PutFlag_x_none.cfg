SPECIFICATION Spec
CONSTANTS Fence = "none"
Net = "fifo"
OneWindow = FALSE
Cells = 2
Rounds = 3
INVARIANTS DataWithFlag
CHECK_DEADLOCK FALSE
