SPECIFICATION Spec
CONSTANTS Windows = 2
Threads = 1
Limit = 3
MaxOps = 8
Flush = "all"
Count = "window"
Lock = "whole"
INVARIANTS Bounded

CHECK_DEADLOCK FALSE
