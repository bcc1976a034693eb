SPECIFICATION Spec
CONSTANTS FirstId = 2  MaxPulses = 4  MaxSets = 2  MaxStarts = 1  MaxFile = 2  Flush = FALSE  Once = TRUE
INVARIANTS ExactlyOnce InOrder OneConfig Bounded Whole Told Off
CHECK_DEADLOCK FALSE
