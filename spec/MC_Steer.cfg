SPECIFICATION MSpec
CONSTANTS Cmds = 3
INVARIANTS Bounded Sane InOrder Flagged OnceOnly
PROPERTIES NoDouble Moved HaltQuiet Kept
CHECK_DEADLOCK FALSE
