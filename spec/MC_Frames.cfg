SPECIFICATION MSpec
CONSTANTS MaxPackets = 4 MaxSize = 3 Resumes = TRUE Connections = 2
INVARIANTS InStep Bounded
PROPERTIES Delivers
CHECK_DEADLOCK FALSE
