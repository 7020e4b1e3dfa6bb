SPECIFICATION Spec
CONSTANTS
  N = 3
  R = 3
  Design = "rows"
INVARIANT Right
CHECK_DEADLOCK FALSE
