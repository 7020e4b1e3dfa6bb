SPECIFICATION Spec
CONSTANTS Mats = {"lps", "bb"} Infl = {"Parabolic Decay"} Design = "no reaction"
INVARIANTS Conserved RigidFree Silent
CHECK_DEADLOCK FALSE
