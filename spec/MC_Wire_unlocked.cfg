SPECIFICATION MSpec
CONSTANTS Threads = {1, 2} Msgs = 1 Each = 2 Patience = 2 Locked = FALSE Closes = TRUE
INVARIANTS Framed Honest

CHECK_DEADLOCK FALSE
