SPECIFICATION Spec
CONSTANTS Design = "overshoot"
PROPERTY Increasing
INVARIANTS Inside Complete Ends Limits Slower
CHECK_DEADLOCK FALSE
