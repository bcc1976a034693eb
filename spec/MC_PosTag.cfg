SPECIFICATION Spec
CONSTANTS NP = 4 NU = 3 Types = {32, 64}
INVARIANTS Brackets North Turns Within Begun Ended Reason OneConf InSweep
CHECK_DEADLOCK FALSE
