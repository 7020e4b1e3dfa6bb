SPECIFICATION Spec
CONSTANTS Design = "oneway" Kinds = {"touch"}
INVARIANTS Searched
CHECK_DEADLOCK FALSE
