SPECIFICATION Spec
CONSTANTS N = 2
Addr = 3
MaxSize = 2
MaxAlloc = 3
Lookup = "slice"
Agree = "own"
Unlink = TRUE
INVARIANTS RightAllocation LookupRight SameLists
CHECK_DEADLOCK FALSE
