SPECIFICATION Spec
CONSTANTS
  N = 3
  R = 3
  Design = "owncols"
INVARIANT Right
CHECK_DEADLOCK FALSE
