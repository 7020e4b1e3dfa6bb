SPECIFICATION Spec
CONSTANTS
  N = 3
  R = 3
  Design = "stale"
INVARIANT Right
CHECK_DEADLOCK FALSE
