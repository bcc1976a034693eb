SPECIFICATION Spec
CONSTANTS FirstId = 2  MaxPulses = 5  MaxSets = 3  MaxStarts = 2  MaxFile = 2  Flush = TRUE  Once = TRUE
INVARIANTS ExactlyOnce InOrder OneConfig Bounded Whole Told Off
CHECK_DEADLOCK FALSE
