SPECIFICATION MSpec
CONSTANTS MaxPackets = 6 MaxSize = 3 Resumes = TRUE Connections = 3
INVARIANTS InStep Bounded
PROPERTIES Delivers
CHECK_DEADLOCK FALSE
