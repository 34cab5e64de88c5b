SPECIFICATION Spec
CONSTANTS Fence = "full"
Net = "weak"
OneWindow = FALSE
Cells = 3
Rounds = 3
INVARIANTS DataWithFlag
PROPERTIES Answered
CHECK_DEADLOCK FALSE
