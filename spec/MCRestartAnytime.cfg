SPECIFICATION Spec
CONSTANTS Last = 5 MaxSets = 3 Design = "anytime"
INVARIANTS Continues
CHECK_DEADLOCK FALSE
