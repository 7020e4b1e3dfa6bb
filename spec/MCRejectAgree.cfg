SPECIFICATION Spec
CONSTANTS P = 4 Stages = 4 Design = "agree"
INVARIANTS NoHang Verdict
CHECK_DEADLOCK FALSE
