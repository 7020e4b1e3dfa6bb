SPECIFICATION Spec
CONSTANTS Design = "reset" Kinds = {"free"}
INVARIANTS Ballistic
CHECK_DEADLOCK FALSE
