SPECIFICATION Spec
CONSTANTS Fence = "none"
Net = "fifo"
OneWindow = TRUE
Cells = 3
Rounds = 3
INVARIANTS DataWithFlag
CHECK_DEADLOCK FALSE
