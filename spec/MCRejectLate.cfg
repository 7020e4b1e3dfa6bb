SPECIFICATION Spec
CONSTANTS P = 3 Stages = 4 Design = "late"
INVARIANTS NoHang Verdict
CHECK_DEADLOCK FALSE
