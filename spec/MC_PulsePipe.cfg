SPECIFICATION Spec
CONSTANTS N = 5 Depth = 3 Workers = 2 Groups = 2
INVARIANTS InOrder ReadDone OnceEach RingHolds
PROPERTY AllRead
CHECK_DEADLOCK FALSE
