SPECIFICATION MSpec
CONSTANTS MaxPackets = 4 MaxSize = 3 Resumes = FALSE Connections = 2
INVARIANTS InStep Bounded
CHECK_DEADLOCK FALSE
