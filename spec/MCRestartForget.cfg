SPECIFICATION Spec
CONSTANTS Last = 5 MaxSets = 3 Design = "forget"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
