SPECIFICATION MSpec
CONSTANTS N = 1 M = 2 P = 1 R = 2 Sessions = 1 RoomCheck = TRUE OneBuffer = FALSE OneFrame = TRUE KeepRest = TRUE
INVARIANTS Good Done

CHECK_DEADLOCK FALSE
