SPECIFICATION Spec
CONSTANTS MaxOps = 6 Design = "good"
INVARIANTS Stable OneToOne
PROPERTIES Grows
CHECK_DEADLOCK FALSE
