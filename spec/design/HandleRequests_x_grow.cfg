SPECIFICATION Spec
CONSTANTS Handles = 2
MaxOps = 4
Add = "grow"
WaitWhat = "all"
TestWhat = "all"
Keep = FALSE
EmptyTest = FALSE
INVARIANTS WaitCompletes TestSucceeds AllCompletes NotTwice
CHECK_DEADLOCK FALSE
