SPECIFICATION Spec
CONSTANTS
 N = 2
 D = 3
 MaxRep = 6
 MaxRec = 6
 Mode = "ok"
 Gps = TRUE
INVARIANT Whole
PROPERTIES Everyone InOrder OldOnlyLate Steady 
CHECK_DEADLOCK FALSE
