SPECIFICATION Spec
CONSTANTS N = 6 Depth = 4 Workers = 2 Groups = 2
INVARIANTS InOrder ReadDone OnceEach RingHolds
PROPERTY AllRead
CHECK_DEADLOCK FALSE
