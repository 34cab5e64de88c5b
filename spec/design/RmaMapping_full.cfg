SPECIFICATION Spec
CONSTANTS Fifo = FALSE
Replace = FALSE
FullFlush = TRUE
LC = 1
Skip = ""
Cmds = {"put","acc","get","fadd","fence"}
K = 2
NCells = 1
INVARIANTS Sound AccSum Clean
CHECK_DEADLOCK FALSE
