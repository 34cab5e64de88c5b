SPECIFICATION Spec
CONSTANTS Handles = 2
MaxOps = 4
Add = "array"
WaitWhat = "all"
TestWhat = "all"
Keep = TRUE
EmptyTest = FALSE
INVARIANTS WaitCompletes TestSucceeds AllCompletes NotTwice
CHECK_DEADLOCK FALSE
