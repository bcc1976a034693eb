SPECIFICATION MSpec
CONSTANTS N = 1 M = 2 P = 0 R = 2 Sessions = 2 RoomCheck = TRUE OneBuffer = FALSE OneFrame = FALSE KeepRest = TRUE
INVARIANTS Good Done

CHECK_DEADLOCK FALSE
