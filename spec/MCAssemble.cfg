SPECIFICATION Spec
CONSTANTS NPts = 3 NRanks = 2 NBlocks = 2 NEvals = 2 Design = "good"
INVARIANTS Correct Balanced
CHECK_DEADLOCK FALSE
