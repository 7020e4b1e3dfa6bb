CONSTANTS
 Flaw = "none"
 NPts = 3
 NRanks = 3
 NBlk = 2
 Low = 2
 High = 1
SPECIFICATION Spec
INVARIANT Definition
CHECK_DEADLOCK FALSE
