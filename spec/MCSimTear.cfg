SPECIFICATION Spec
CONSTANTS Design = "good" Kinds = {"tear"}
INVARIANTS Broken Held
CHECK_DEADLOCK FALSE
