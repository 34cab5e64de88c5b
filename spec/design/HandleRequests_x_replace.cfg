SPECIFICATION Spec
CONSTANTS Handles = 2
MaxOps = 4
Add = "replace"
WaitWhat = "all"
TestWhat = "all"
Keep = FALSE
EmptyTest = FALSE
INVARIANTS WaitCompletes TestSucceeds AllCompletes NotTwice
CHECK_DEADLOCK FALSE
