SPECIFICATION Spec
CONSTANTS Design = "cold" Kinds = {"warm"}
INVARIANTS Broken
CHECK_DEADLOCK FALSE
