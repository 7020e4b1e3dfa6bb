SPECIFICATION Spec
CONSTANTS Design = "shared" Kinds = {"free"}
INVARIANTS Windows
CHECK_DEADLOCK FALSE
