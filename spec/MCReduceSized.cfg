CONSTANTS
 Flaw = "sized"
 NPts = 3
 NRanks = 2
 NBlk = 2
 Low = 2
 High = 1
SPECIFICATION Spec
INVARIANT Definition
CHECK_DEADLOCK FALSE
