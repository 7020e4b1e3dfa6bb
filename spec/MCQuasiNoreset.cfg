SPECIFICATION Spec
CONSTANTS Design = "noreset"
PROPERTY Increasing
INVARIANTS Inside Complete Ends Limits Slower
CHECK_DEADLOCK FALSE
