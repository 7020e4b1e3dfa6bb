SPECIFICATION Spec
CONSTANTS Design = "forget"
PROPERTY Increasing
INVARIANTS Inside Complete Ends Limits Slower
CHECK_DEADLOCK FALSE
