SPECIFICATION Spec
CONSTANTS
  N = 3
  R = 3
  Design = "early"
INVARIANT Right
CHECK_DEADLOCK FALSE
