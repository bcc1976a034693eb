SPECIFICATION MSpec
CONSTANTS Cap = 2
 NT = 2
 MaxLabel = 4
 Locked = TRUE
INVARIANTS Inv Same Able
CHECK_DEADLOCK FALSE
