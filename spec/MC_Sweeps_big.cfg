SPECIFICATION MSpec
CONSTANTS MaxRays = 7
 Depth = 6
 Marks = {0, 1, 3, 5, 7}
INVARIANTS Whole NoneLost Held HeldOpen Owed Written
CHECK_DEADLOCK FALSE
