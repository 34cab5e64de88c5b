SPECIFICATION Spec
CONSTANTS N = 4
Hand = "lowest"
Early = FALSE
Rounds <- M1
INVARIANTS Mutex Bypass NoLostWakeup OneMessage Quiet

CHECK_DEADLOCK FALSE
