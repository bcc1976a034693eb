SPECIFICATION MSpec
CONSTANTS MaxRays = 6
 Depth = 5
 Marks = {1, 3, 5, 7}
INVARIANTS Whole NoneLost Held HeldOpen Owed Written
CHECK_DEADLOCK FALSE
