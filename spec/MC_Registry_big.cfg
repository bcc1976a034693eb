SPECIFICATION MSpec
CONSTANTS Cap = 2
 NT = 3
 MaxLabel = 5
 Locked = TRUE
INVARIANTS Inv Same Able
CHECK_DEADLOCK FALSE
