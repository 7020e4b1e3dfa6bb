SPECIFICATION Spec
CONSTANTS Last = 5 MaxSets = 3 Design = "stale"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
