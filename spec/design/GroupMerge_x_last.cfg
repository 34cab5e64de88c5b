SPECIFICATION Spec
CONSTANTS N = 3
Partner = "prev"
High = TRUE
Reverse = FALSE
Last = TRUE
INVARIANTS Result SameCreation Stuck
CHECK_DEADLOCK FALSE
