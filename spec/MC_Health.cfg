SPECIFICATION Spec
CONSTANTS
 N = 2
 D = 3
 MaxRep = 4
 MaxRec = 4
 Mode = "ok"
 Gps = FALSE
INVARIANT Whole
PROPERTIES Everyone InOrder OldOnlyLate Steady Progress1
CHECK_DEADLOCK FALSE
