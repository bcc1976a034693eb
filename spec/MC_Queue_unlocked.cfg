SPECIFICATION MSpec
CONSTANTS Producers = {1, 2} Consumers = {3, 4} Each = 2 D = 2 Locked = FALSE Wait = FALSE
INVARIANTS QInv Ring Order NeverStuck
CHECK_DEADLOCK FALSE
