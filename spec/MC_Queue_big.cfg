SPECIFICATION MSpec
CONSTANTS Producers = {1, 2} Consumers = {3, 4} Each = 3 D = 2 Locked = TRUE Wait = FALSE
INVARIANTS QInv Ring Order NeverStuck
PROPERTIES Done
CHECK_DEADLOCK FALSE
