SPECIFICATION MSpec
CONSTANTS Depth = 2
 NT = 2
 MaxChg = 4
 Locked = TRUE
INVARIANTS CInv Same Able
CHECK_DEADLOCK FALSE
