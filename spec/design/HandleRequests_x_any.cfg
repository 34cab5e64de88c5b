SPECIFICATION Spec
CONSTANTS Handles = 2
MaxOps = 4
Add = "array"
WaitWhat = "all"
TestWhat = "any"
Keep = FALSE
EmptyTest = FALSE
INVARIANTS WaitCompletes TestSucceeds AllCompletes NotTwice
CHECK_DEADLOCK FALSE
