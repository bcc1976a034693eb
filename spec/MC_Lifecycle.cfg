SPECIFICATION MSpec
CONSTANTS W = 2
 MaxFed = 3
 Rounds = 2
 Way = "code"
INVARIANTS TypeOK OffIsOff OnIsOn
PROPERTIES Refines Quiet StopReturns StartReturns Progress
CHECK_DEADLOCK FALSE
