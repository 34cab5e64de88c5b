SPECIFICATION Spec
CONSTANTS N = 2
Win = 2
Order = "early"
Skip = FALSE
DoSync = FALSE
Local = FALSE
Separate = TRUE
INVARIANTS Visible Together
CHECK_DEADLOCK FALSE
