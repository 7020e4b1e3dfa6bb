SPECIFICATION Spec
CONSTANTS NPts = 2 NRanks = 2 MaxOps = 5 Design = "good"
INVARIANTS OneMemory Globals1 Shape
PROPERTIES Refreshed
CHECK_DEADLOCK FALSE
