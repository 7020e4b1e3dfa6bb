SPECIFICATION Spec
CONSTANTS NPts = 2 NRanks = 2 MaxOps = 5 Design = "stale"
INVARIANTS OneMemory Globals1 Shape
PROPERTIES Refreshed
CHECK_DEADLOCK FALSE
