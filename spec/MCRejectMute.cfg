SPECIFICATION Spec
CONSTANTS P = 3 Stages = 4 Design = "mute"
INVARIANTS NoHang Verdict
CHECK_DEADLOCK FALSE
