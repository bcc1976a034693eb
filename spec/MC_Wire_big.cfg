SPECIFICATION MSpec
CONSTANTS Threads = {1, 2, 3} Msgs = 1 Each = 2 Patience = 2 Locked = TRUE Closes = TRUE
INVARIANTS Framed Honest
PROPERTIES Ends
CHECK_DEADLOCK FALSE
