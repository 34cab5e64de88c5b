SPECIFICATION Spec
CONSTANTS N = 3
Partner = "prev"
High = TRUE
Reverse = TRUE
Last = FALSE
INVARIANTS Result SameCreation Stuck
CHECK_DEADLOCK FALSE
