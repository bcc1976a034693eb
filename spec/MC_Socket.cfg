SPECIFICATION MSpec
CONSTANTS N = 1 M = 2 P = 1 R = 2 Sessions = 1 RoomCheck = TRUE OneBuffer = FALSE OneFrame = FALSE KeepRest = TRUE
INVARIANTS Good Done
PROPERTIES Ends Comes
CHECK_DEADLOCK FALSE
