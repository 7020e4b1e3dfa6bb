SPECIFICATION Spec
CONSTANTS Last = 5 MaxSets = 3 Design = "good"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
