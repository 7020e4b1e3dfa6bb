SPECIFICATION Spec
CONSTANTS Design = "good" Kinds = {"free"}
INVARIANTS Ballistic Times Complete Windows
CHECK_DEADLOCK FALSE
