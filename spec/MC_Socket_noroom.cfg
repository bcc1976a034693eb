SPECIFICATION MSpec
CONSTANTS N = 2 M = 1 P = 1 R = 2 Sessions = 1 RoomCheck = FALSE OneBuffer = FALSE OneFrame = FALSE KeepRest = TRUE
INVARIANTS Good Done

CHECK_DEADLOCK FALSE
