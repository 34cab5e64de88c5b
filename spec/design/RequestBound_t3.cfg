SPECIFICATION Spec
CONSTANTS Windows = 2
Threads = 3
Limit = 4
MaxOps = 14
Flush = "all"
Count = "process"
Lock = "whole"
INVARIANTS Bounded

CHECK_DEADLOCK FALSE
