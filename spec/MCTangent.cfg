SPECIFICATION Spec
CONSTANTS
  N = 3
  R = 3
  Design = "right"
INVARIANT Right
CHECK_DEADLOCK FALSE
