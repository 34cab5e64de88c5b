SPECIFICATION Spec
CONSTANTS Fifo = FALSE
Replace = FALSE
FullFlush = FALSE
LC = 1
Skip = ""
Cmds = {"put","acc","get","fadd","nbput","nbget","wait","fence"}
K = 2
NCells = 1
INVARIANTS Sound AccSum Clean
CHECK_DEADLOCK FALSE
