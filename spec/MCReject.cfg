SPECIFICATION Spec
CONSTANTS P = 4 Stages = 4 Design = "abort"
INVARIANTS NoHang Verdict
CHECK_DEADLOCK FALSE
