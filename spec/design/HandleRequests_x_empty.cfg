SPECIFICATION Spec
CONSTANTS Handles = 2
MaxOps = 4
Add = "array"
WaitWhat = "all"
TestWhat = "all"
Keep = FALSE
EmptyTest = TRUE
INVARIANTS WaitCompletes TestSucceeds AllCompletes NotTwice
CHECK_DEADLOCK FALSE
