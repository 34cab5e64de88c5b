SPECIFICATION Spec
CONSTANTS N = 3
Partner = "prev"
High = FALSE
Reverse = FALSE
Last = FALSE
INVARIANTS Result SameCreation Stuck
CHECK_DEADLOCK FALSE
