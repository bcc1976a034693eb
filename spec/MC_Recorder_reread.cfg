SPECIFICATION Spec
CONSTANTS FirstId = 2  MaxPulses = 4  MaxSets = 2  MaxStarts = 1  MaxFile = 2  Flush = TRUE  Once = FALSE
INVARIANTS ExactlyOnce InOrder OneConfig Bounded Whole Told Off
CHECK_DEADLOCK FALSE
