SPECIFICATION MSpec
CONSTANTS W = 3
 MaxFed = 5
 Rounds = 3
 Way = "code"
INVARIANTS TypeOK OffIsOff OnIsOn
PROPERTIES Refines Quiet StopReturns StartReturns Progress
CHECK_DEADLOCK FALSE
