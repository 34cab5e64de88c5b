SPECIFICATION Spec
CONSTANTS N = 5
Partner = "prev"
High = TRUE
Reverse = FALSE
Last = FALSE
INVARIANTS Result SameCreation Stuck
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
