SPECIFICATION Spec
CONSTANTS
  N = 3
  R = 3
  Design = "drop"
INVARIANT Right
CHECK_DEADLOCK FALSE
