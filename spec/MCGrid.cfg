SPECIFICATION Spec
CONSTANTS N = 2  HW = 2  H = 5  Ranks = 3
INVARIANTS NoDuplicates Distinct Complete Symmetric BallInBox
CHECK_DEADLOCK FALSE
