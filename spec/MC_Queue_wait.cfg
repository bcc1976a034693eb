SPECIFICATION MSpec
CONSTANTS Producers = {1, 2} Consumers = {3, 4} Each = 2 D = 4 Locked = TRUE Wait = TRUE
INVARIANTS QInv Ring Order NeverStuck
CHECK_DEADLOCK FALSE
