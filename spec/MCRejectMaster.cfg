SPECIFICATION Spec
CONSTANTS P = 3 Stages = 4 Design = "master"
INVARIANTS NoHang Verdict
CHECK_DEADLOCK FALSE
