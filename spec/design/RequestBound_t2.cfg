SPECIFICATION Spec
CONSTANTS Windows = 2
Threads = 2
Limit = 3
MaxOps = 8
Flush = "all"
Count = "process"
Lock = "whole"
INVARIANTS Bounded
PROPERTIES AllIssued
CHECK_DEADLOCK FALSE
