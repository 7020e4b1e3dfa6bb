SPECIFICATION Spec
CONSTANT W = 2
INVARIANT Invariant
CHECK_DEADLOCK FALSE
