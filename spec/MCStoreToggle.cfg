SPECIFICATION Spec
CONSTANTS NPts = 2 NRanks = 2 MaxOps = 5 Design = "toggle"
INVARIANTS OneMemory Globals1 Shape
PROPERTIES Refreshed
CHECK_DEADLOCK FALSE
