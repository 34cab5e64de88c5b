SPECIFICATION Spec
CONSTANTS Fifo = TRUE
Replace = FALSE
FullFlush = FALSE
LC = 1
Skip = "fence"
Cmds = {"put","acc","get","fadd","nbput","nbget","wait","fence"}
K = 2
NCells = 1
INVARIANTS Sound AccSum Clean
CHECK_DEADLOCK FALSE
