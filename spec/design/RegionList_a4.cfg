SPECIFICATION Spec
CONSTANTS N = 2
Addr = 4
MaxSize = 2
MaxAlloc = 3
Lookup = "slice"
Agree = "root"
Unlink = TRUE
INVARIANTS RightAllocation LookupRight SameLists
CHECK_DEADLOCK FALSE
