SPECIFICATION Spec
CONSTANTS Last = 5 MaxSets = 3 Design = "partial"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
