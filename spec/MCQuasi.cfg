SPECIFICATION Spec
CONSTANTS Design = "right"
PROPERTY Increasing
INVARIANTS Inside Complete Ends Limits Slower
CHECK_DEADLOCK FALSE
