SPECIFICATION Spec
CONSTANTS N = 5
Hand = "right"
Early = FALSE
Rounds <- M1
INVARIANTS Mutex Bypass NoLostWakeup OneMessage Quiet
PROPERTIES Refines
CHECK_DEADLOCK FALSE
