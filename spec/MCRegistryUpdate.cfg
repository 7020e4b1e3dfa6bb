SPECIFICATION Spec
CONSTANTS MaxOps = 6 Design = "update"
INVARIANTS Stable OneToOne
PROPERTIES Grows
CHECK_DEADLOCK FALSE
