SPECIFICATION Spec
CONSTANTS N = 2
Win = 2
Order = "early"
Skip = FALSE
DoSync = TRUE
Local = TRUE
Separate = FALSE
INVARIANTS Visible Together
CHECK_DEADLOCK FALSE
