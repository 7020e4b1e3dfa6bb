SPECIFICATION Spec
CONSTANTS Design = "forget" Kinds = {"tear"}
INVARIANTS Broken
CHECK_DEADLOCK FALSE
