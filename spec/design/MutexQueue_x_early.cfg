SPECIFICATION Spec
CONSTANTS N = 3
Hand = "right"
Early = TRUE
Rounds = 2
INVARIANTS Mutex Bypass NoLostWakeup OneMessage Quiet

CHECK_DEADLOCK FALSE
