SPECIFICATION Fair
CONSTANTS FirstId = 2  MaxPulses = 4  MaxSets = 2  MaxStarts = 1  MaxFile = 2  Flush = TRUE  Once = TRUE
INVARIANTS ExactlyOnce InOrder OneConfig Bounded Whole Told Off
PROPERTY Ends
CHECK_DEADLOCK FALSE
