SPECIFICATION MSpec
CONSTANTS Cap = 3
 MaxOps = 7
INVARIANTS TabInv Listed
CHECK_DEADLOCK FALSE
PROPERTY Fresh
