SPECIFICATION Spec
CONSTANTS NP = 5 NU = 4 Types = {32, 64}
INVARIANTS Brackets North Turns Within Begun Ended Reason OneConf InSweep
CHECK_DEADLOCK FALSE
