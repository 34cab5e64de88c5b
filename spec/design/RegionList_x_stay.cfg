SPECIFICATION Spec
CONSTANTS N = 2
Addr = 3
MaxSize = 2
MaxAlloc = 3
Lookup = "slice"
Agree = "root"
Unlink = FALSE
INVARIANTS RightAllocation LookupRight SameLists
CHECK_DEADLOCK FALSE
