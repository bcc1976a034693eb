SPECIFICATION Spec
CONSTANTS N = 5 Depth = 3 Workers = 2 Gates = 3
INVARIANTS Correct Order
PROPERTIES Refines AllOut
CHECK_DEADLOCK FALSE
