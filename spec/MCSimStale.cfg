SPECIFICATION Spec
CONSTANTS Design = "stale" Kinds = {"touch"}
INVARIANTS Searched
CHECK_DEADLOCK FALSE
