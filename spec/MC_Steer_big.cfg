SPECIFICATION MSpec
CONSTANTS Cmds = 5
INVARIANTS Bounded Sane InOrder Flagged OnceOnly
PROPERTIES NoDouble Moved HaltQuiet Kept
CHECK_DEADLOCK FALSE
