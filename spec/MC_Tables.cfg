SPECIFICATION MSpec
CONSTANTS Cap = 2
 MaxOps = 6
INVARIANTS TabInv Listed
CHECK_DEADLOCK FALSE
PROPERTY Fresh
