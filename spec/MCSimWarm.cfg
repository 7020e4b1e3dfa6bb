SPECIFICATION Spec
CONSTANTS Design = "good" Kinds = {"warm"}
INVARIANTS Broken Held
CHECK_DEADLOCK FALSE
