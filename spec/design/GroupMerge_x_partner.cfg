SPECIFICATION Spec
CONSTANTS N = 3
Partner = "self"
High = TRUE
Reverse = FALSE
Last = FALSE
INVARIANTS Result SameCreation Stuck
CHECK_DEADLOCK FALSE
