SPECIFICATION Spec
CONSTANTS
 N = 3
 D = 3
 MaxRep = 4
 MaxRec = 3
 Mode = "ok"
 Gps = FALSE
INVARIANT Whole
PROPERTIES Everyone InOrder OldOnlyLate Steady Progress1
CHECK_DEADLOCK FALSE
