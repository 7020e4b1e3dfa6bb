SPECIFICATION Spec
CONSTANTS Design = "good" Kinds = {"touch"}
INVARIANTS Opposite Searched Ballistic
CHECK_DEADLOCK FALSE
