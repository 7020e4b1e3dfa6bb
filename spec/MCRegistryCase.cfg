SPECIFICATION Spec
CONSTANTS MaxOps = 6 Design = "case"
INVARIANTS Stable OneToOne
PROPERTIES Grows
CHECK_DEADLOCK FALSE
