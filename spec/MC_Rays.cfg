SPECIFICATION Spec
CONSTANTS N = 6 Depth = 4 Cap = 3 Excl = FALSE Workers = 2 Cells = {0, 1}
INVARIANTS Whole OneSweepEach InOrder SameCell Covered Disjoint RingHolds Counts
PROPERTY AllRead
CHECK_DEADLOCK FALSE
