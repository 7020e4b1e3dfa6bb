SPECIFICATION Spec
CONSTANTS Design = "good" Kinds = {"held"}
INVARIANTS Held Ballistic Times Complete
CHECK_DEADLOCK FALSE
