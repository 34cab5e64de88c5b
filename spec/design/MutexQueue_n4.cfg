SPECIFICATION Spec
CONSTANTS N = 4
Hand = "right"
Early = FALSE
Rounds <- M1
INVARIANTS Mutex Bypass NoLostWakeup OneMessage Quiet
PROPERTIES Progress Refines
CHECK_DEADLOCK FALSE
