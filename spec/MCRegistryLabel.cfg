SPECIFICATION Spec
CONSTANTS MaxOps = 6 Design = "label"
INVARIANTS Stable OneToOne
PROPERTIES Grows
CHECK_DEADLOCK FALSE
