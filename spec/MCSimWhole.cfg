SPECIFICATION Spec
CONSTANTS Design = "whole" Kinds = {"free"}
INVARIANTS Ballistic
CHECK_DEADLOCK FALSE
